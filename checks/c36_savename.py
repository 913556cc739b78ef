META = {
 'level': 'model_checking',
 'assumptions': [
  'names of 1 to 5 (6 thorough) arbitrary bytes except NUL (which no command line argument contains), plus longer names '
  'around the ".lock" suffix; validity is judged by the documented rules of git-check-ref-format(1), and every replayed '
  'name is also put to the installed git',
 ],
}
import subprocess
from sx.harness import Case
from sx.num import and_, or_, implies, not_
from sx.harness import patch
from bup import options
from bup.helpers import valid_save_name
import bup.cmd.split as cmd_split, bup.cmd.save as cmd_save


def git_valid(name):
    """The rules of git-check-ref-format(1) for refs/heads/<name> (no forking)."""
    bad = []
    n = len(name)
    for i in range(n):
        c = name[i]
        bad.append(or_(c < 32, c == 127, *[c == x for x in b' ~^:?*[\\']))
        start = True if i == 0 else name[i - 1] == 47
        bad.append(and_(start, or_(c == 46, c == 47)))
        if i + 1 < n:
            d = name[i + 1]
            bad.append(and_(c == 46, d == 46))
            bad.append(and_(c == 64, d == 123))
        if i + 5 <= n:
            lock = and_(*[name[i + k] == x for k, x in enumerate(b'.lock')])
            bad.append(and_(lock, True if i + 5 == n else name[i + 5] == 47))
    bad.append(or_(name[n - 1] == 47, name[n - 1] == 46))
    if n == 1: bad.append(name[0] == 64)
    return not_(or_(*bad))


def plain(name):
    return and_(*[or_(and_(c >= 48, c <= 57), and_(c >= 65, c <= 90), and_(c >= 97, c <= 122), c == 45, c == 95)
                  for c in name])


def judge(ctx, name):
    r = valid_save_name(name)
    ok = git_valid(name)
    if not ctx.symbolic:
        p = subprocess.run(['git', 'check-ref-format', b'refs/heads/' + name])
        assert (p.returncode == 0) == (ok or name == b'@'), ('oracle disagrees with git', name)
    if r:
        ctx.check(ok, 'an accepted name is a valid git reference name')
        ctx.reach('accepted')
    else:
        ctx.check(not_(plain(name)), 'a name of letters, digits, - and _ is accepted')
        ctx.reach('refused')


def c_name(ctx, n):
    judge(ctx, ctx.bytes('name', n, exclude=b'\0'))


def c_lock(ctx, pre, post):
    judge(ctx, ctx.bytes('pre', pre, exclude=b'\0') + b'.' + ctx.bytes('mid', 4, exclude=b'\0') + ctx.bytes('post', post, exclude=b'\0'))


class Fatal(Exception): pass

def c_option(ctx, cmd, n, alphabet):
    """save and split take exactly the name given with -n."""
    mod = {'split': cmd_split, 'save': cmd_save}[cmd]
    name = ctx.bytes('name', n, alphabet=alphabet)
    text = name.decode('ascii')
    class Opts(options.Options):
        def __init__(self, spec):
            options.Options.__init__(self, spec, optfunc=lambda args, s, l: ([('--name', text)], ['src']))
        def fatal(self, msg): raise Fatal()
    class O:
        Options = Opts
    patch(mod, 'options', O)
    patch(mod, 'main_repo_location', lambda remote, die: None)
    patch(mod, 'environ', {})
    try: opt, o = mod.opts_from_cmdline([b'bup', b'x'])
    except Fatal:
        ctx.check(not_(git_valid(name)), 'a valid name is accepted by the command')
        ctx.reach('refused')
        return
    ctx.check(git_valid(name), 'an invalid name is refused by the command')
    ctx.check(opt.name == name, 'the name given is the name used')
    ctx.reach('accepted')


def cases(tier):
    N = 5 if tier == 'quick' else 6
    out = [Case('name %d' % n, c_name, ('accepted', 'refused'), n=n, weight=n, bounds='every %d byte name without NUL' % n)
           for n in range(1, N + 1)]
    for pre in (0, 1, 2):
        for post in (0, 1, 2) if tier != 'quick' else (0, 1) if pre < 2 else (0,):
            out.append(Case('lock %d %d' % (pre, post), c_lock, ('refused',), pre=pre, post=post,
                            weight=3, bounds='names with a dot at %d and %d further bytes' % (pre, 4 + post)))
    for cmd in ('save', 'split'):
        for n in (1, 2, 3):
            out.append(Case('%s -n %d' % (cmd, n), c_option, ('accepted', 'refused'), cmd=cmd, n=n, alphabet=b'0123456789-a.~_',
                            weight=n, bounds='every %d character name of digits, - a . ~ _' % n))
    return out
