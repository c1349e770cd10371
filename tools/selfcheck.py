"""setup_cmd: nothing to build; makes sure the tools the checks use are there and the specification parses."""
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.dont_write_bytecode = True
import tlc
import gen
r = gen.generate(dict(Cfgs='CfgOne'))
assert not r.violation and r.states > 0
print('TLC works: %d states' % r.distinct)
