"""replay.py PROPERTY SCENARIO CASE: re-runs one failing case on /repo's code"""
import sys, subprocess
sys.path.insert(0, '/verif')
from specs.props import P
from cdv import native
prop, sc, case = sys.argv[1:4]
cfg = P[prop]
rc = 0
for san in cfg['san'].split('+'):
    exe = native.build(cfg['harness'], san)
    rc = rc or subprocess.run([exe, '--prop', prop, '--scenario', sc, '--case', case, '--time', '100']).returncode
sys.exit(rc)
