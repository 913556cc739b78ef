BUGS = [
dict(id='s03a', property='C03', needs='lookup of a directory preceded in git order by NAME.something',
 what_it_breaks='single-name lookup misses a present directory (git orders "a.b" before directory "a")',
 edits=[('lib/bup/git.py', '        if name > dirname:\n            break\n', '        if name > named:\n            break\n')],
 demo='''
from bup import git
o = b'x' * 20
t = git.tree_encode([(0o40000, b'a', o), (0o100644, b'a.b', o)])
assert git.find_tree_entry(b'a', t) == (0o40000, b'a', o), git.find_tree_entry(b'a', t)
'''),
dict(id='s03b', property='C03', needs='an object id containing a NUL byte in the last-but-one entry at a certain place',
 what_it_breaks='last_tree_entry returns garbage when an object id holds a zero byte',
 edits=[('lib/bup/git.py', "        z = tree_data.find(b'\\0', z)\n        if z == -1:\n            break\n        z += 21\n",
         "        z = tree_data.find(b'\\0', z)\n        if z == -1:\n            break\n        z += 17\n")],
 demo='''
from bup import git
for i in range(20):
    o = bytearray(b'x' * 20); o[i] = 0; o = bytes(o)
    t = git.tree_encode([(0o40000, b'a', o), (0o100644, b'a.b', b'y' * 20), (0o100644, b'c', o)])
    assert git.last_tree_entry(t) == (0o100644, b'c', o), git.last_tree_entry(t)
'''),
dict(id='s07a', property='C07', needs='a negative integer below -2**64 whose low bits are not symmetric under negation',
 what_it_breaks='huge negative integers decode to another value via the fallback encoder',
 edits=[('lib/bup/vint.py', "    if x < 0:\n        x = -x\n        sign_and_six_bits = (x & 0x3f) | 0x40\n",
         "    if x < 0:\n        sign_and_six_bits = (x & 0x3f) | 0x40\n        x = -x\n")],
 demo='''
from io import BytesIO
from bup import vint
for x in (-(2**70), -(2**70) - 1, -(2**90 + 12345)):
    b = BytesIO(vint.encode_vint(x))
    assert vint.read_vint(b) == x, x
'''),
dict(id='s12a', property='C12', needs='a directory (not a regular file) whose name ends in .bup',
 what_it_breaks='a directory called x.bup is stored unmangled and later taken for the chunked file x',
 edits=[('lib/bup/git.py', "    if name.endswith(b'.bup') or name[:-1].endswith(b'.bup'):\n        return name + b'.bupl'",
         "    if name[:-1].endswith(b'.bup') or (name.endswith(b'.bup')\n                                       and not stat.S_ISLNK(mode)):\n        return name + b'.bupl'")],
 demo='''
from bup import git
for m in (0o100644, 0o120777, 0o40755):
    gm = {0o100644: 0o100644, 0o120777: 0o120000, 0o40755: 0o40000}[m]
    for n in (b'x.bup', b'x.bupl', b'x.bupm', b'x.bupd', b'x.bupz'):
        s = git.mangle_name(n, m, gm)
        assert git.demangle_name(s, gm) == (n, git.BUP_NORMAL), (m, n, s)
'''),
dict(id='s14a', property='C14', needs='a quoted string with an assignment-like word or leading tilde',
 what_it_breaks='~name printed unquoted is expanded by the shell',
 edits=[('lib/bup/io.py', "        if c in b'|&;<>()$`\\\\\" \\t*?[]^!#~=%{,}':", "        if c in b'|&;<>()$`\\\\\" \\t*?[]^!#=%{,}':")],
 demo='''
from bup.io import enc_sh
import subprocess
for v in (b'~', b'a=b', b'~root', b'{a,b}'):
    out = subprocess.check_output([b'bash', b'-c', b"printf '%s|' " + enc_sh(v)])
    assert out == v + b'|', (v, out)
'''),
dict(id='s17a', property='C17', needs='a save dated exactly at the start of a keep period',
 what_it_breaks='a save exactly at the boundary of the keep-all period is dropped',
 edits=[('lib/bup/cmd/prune_older.py', "    for pstart, time_region_id in tm_ranges:\n        matches, rest = partition(lambda s: s[0] >= pstart, rest)",
         "    for pstart, time_region_id in tm_ranges:\n        matches, rest = partition(lambda s: s[0] > pstart, rest)")],
 demo='''
from bup.cmd.prune_older import classify_saves
inf = float('inf')
p = {'all': inf, 'dailies': 1000000, 'monthlies': inf, 'yearlies': inf}
assert list(classify_saves([(1000000, b'a')], p)) == [(True, (1000000, b'a'))]
'''),
dict(id='s17b', property='C17', needs='saves in the monthly period on dates whose month of different days', 
 what_it_breaks='the period of a month is computed with 30 days, so a save inside the documented 31-day month is dropped',
 edits=[('lib/bup/helpers.py', "                  b'm': 60 * 60 * 24 * 31,", "                  b'm': 60 * 60 * 24 * 30,"),],
 demo='''
from bup.helpers import period_as_secs
assert period_as_secs(b'2m') == 2 * 31 * 86400
'''),
dict(id='s28a', property='C28', needs='a fractional size in tb with enough digits', 
 what_it_breaks='the fraction of a terabyte size is rounded to whole gigabytes',
 edits=[('lib/bup/helpers.py', "    if unit in ['t', 'tb']:\n        mult = 1024*1024*1024*1024\n", "    if unit in ['t', 'tb']:\n        num = int(num * 1024)\n        mult = 1024*1024*1024\n")],
 demo='''
from bup.helpers import parse_num
assert parse_num('2.1 tb') == int(2.1 * 2**40)
'''),
dict(id='s29a', property='C29', needs='a timestamp before the epoch with a fraction of a second',
 what_it_breaks='whole seconds of negative fractional timestamps are rounded toward zero',
 edits=[('lib/bup/xstat.py', '    return int(ns) // 10**9\n', '    return int(ns / 10**9)\n')],
 demo='''
from bup import xstat
assert xstat.fstime_floor_secs(-1500000000) == -2
assert xstat.fstime_floor_secs(10**18 - 1) == 999999999
'''),
dict(id='s36a', property='C36', needs='a save name with a DEL byte',
 what_it_breaks='a name containing DEL is accepted',
 edits=[('lib/bup/helpers.py', "        if c < 0x20 or c == 0x7f:\n", "        if c < 0x20 or c > 0x7f:\n")],
 demo='''
from bup.helpers import valid_save_name
assert not valid_save_name(b'a' + bytes([127]))
'''),
dict(id='s36b', property='C36', needs='a save name with a component that starts with a dot, after an empty or dotted part',
 what_it_breaks='a hierarchical name whose last component starts with a dot is accepted',
 edits=[('lib/bup/helpers.py', "    for part in name.split(b'/'):\n        if part.startswith(b'.')", "    for part in name.rsplit(b'/', 1)[:1] + name.split(b'/')[2:]:\n        if part.startswith(b'.')")],
 demo='''
from bup.helpers import valid_save_name
assert not valid_save_name(b'a/.b')
assert not valid_save_name(b'a/b/.c')
'''),
]
