import json
import drive


def replay(loop, item):
    steps = [json.loads(s) for s in item['steps']]
    return drive.replay_one(loop, item['cfg'], steps, item['seed'])


def replay_sync(loop, item):
    import drive_sync
    steps = [json.loads(s) for s in item['steps']]
    return drive.replay_one(loop, None, None, None, drive_sync.SyncReplay(item['cfg'], steps, item['seed'], item['way']))


def replay_mon(loop, item):
    """As replay and replay_sync, with monitors between sessions and transport."""
    import drive_sync
    import logging
    from saltchannel.dev.mitm_channel import MitmChannel
    quiet = logging.Logger('mon')
    quiet.addHandler(logging.NullHandler())

    def top(self, ch):
        m = MitmChannel(ch, log=quiet if self.role == 'c' else None)
        m.log_buffering = len(item['seed']) % 2 == 0
        return MitmChannel(m) if self.role == 's' else m

    class MonEnd(drive.End):
        pass

    class MonSync(drive_sync.SyncEnd):
        pass
    MonEnd.top = MonSync.top = top

    class Mon(drive.Replay):
        def make(self, role):
            return MonEnd(role, self.cfg, self.conc)

        def diff(self, i, facet, text):
            super().diff(i, facet if facet == 'hang' else 'mon.' + facet, '(through a monitor) ' + text)

    class MonS(drive_sync.SyncReplay):
        def make(self, role):
            w = self.way
            return MonSync(role, self.cfg, self.conc, w[0] if role == 'c' else w[1])

        def diff(self, i, facet, text):
            drive.Replay.diff(self, i, facet if facet == 'hang' else 'mon.' + facet, '(through a monitor, synchronous API) ' + text)
    steps = [json.loads(s) for s in item['steps']]
    if item['way'] is None:
        r = Mon(item['cfg'], steps, item['seed'])
    else:
        r = MonS(item['cfg'], steps, item['seed'], item['way'])
    return drive.replay_one(loop, None, None, None, r)
