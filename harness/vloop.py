"""An event loop on which time can be made to pass: whatever is waiting has then waited for days.

Nothing in the specification depends on how long a peer or a transport takes, so that letting time pass is a stuttering step: an
operation that is waiting is still waiting afterwards."""
import asyncio

DAYS = 1e6


class VLoop(asyncio.SelectorEventLoop):
    offset = 0.0

    def time(self):
        return super().time() + self.offset

    def timers(self):
        return any(not h.cancelled() for h in self._scheduled)

    def pass_time(self):
        """-> something was waiting for time to pass"""
        if not self.timers():
            return False
        self.offset += DAYS
        return True


async def idle(rounds=12):
    """Days go by."""
    loop = asyncio.get_running_loop()
    if isinstance(loop, VLoop) and loop.pass_time():
        for _ in range(rounds):
            await asyncio.sleep(0)
