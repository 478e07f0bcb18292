"""C29: arguments, quoting, sizes, URLs and config are read as documented."""
import os, re, subprocess
from decimal import Decimal
from ipaddress import IPv4Address, IPv6Address
from hypothesis import strategies as st
from vt import ops
from vt.child import in_child
from vt.core import Suite, Violation, require

# ---- option parsing

LONG = ['alpha', 'beta', 'file-name', 'x-y-z', 'gamma', 'verbose', 'quiet', 'num2', 'delta', 'beta-two']
SHORT = list('abcdexyzABC')

@st.composite
def spec(draw):
    """A specification: [dict(names, neg, parm, default)]."""
    longs, shorts = list(LONG), list(SHORT)
    out = []
    for _ in range(draw(st.integers(1, 6))):
        names = []
        if draw(st.integers(0, 3)):
            names.append(shorts.pop(draw(st.integers(0, len(shorts) - 1))))
        for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2])) if names else 1):
            if longs:
                names.append(longs.pop(draw(st.integers(0, len(longs) - 1))))
        if not names:
            continue
        if len(names) > 1 and draw(st.booleans()):
            names.reverse()
        parm = draw(st.booleans())
        neg = [n for n in names if len(n) > 1 and draw(st.integers(0, 2)) == 0] if not parm and draw(st.booleans()) else []
        out.append({'names': names, 'neg': neg, 'parm': parm, 'digits': False,
                    'default': draw(st.sampled_from([None, None, None, '5', '0', 'abc', 'on', '-1', '1.5', '007'])) if parm else draw(st.sampled_from([None, None, None, '1', '3', '0']))})
    if draw(st.integers(0, 3)) == 0:
        out.append({'names': ['#', 'level'], 'neg': [], 'parm': True, 'digits': True, 'default': draw(st.sampled_from([None, '4']))})
    return out or [{'names': ['a', 'alpha'], 'neg': [], 'parm': False, 'digits': False, 'default': None}]

VALUES = ['1', '0', '-3', '007', 'x', '', 'a b', '--', '-', '-q', '--alpha', '=', 'k=v', '99999999999999999999', ' 5', '+5', '1e3', 'é', '\udcff', '5_0']
use = st.fixed_dictionaries({'o': st.integers(0, 20), 'n': st.integers(0, 5), 'no': st.booleans(), 'v': st.sampled_from(VALUES), 'form': st.sampled_from(['eq', 'next', 'glue']),
                             'd': st.integers(0, 9), 'group': st.booleans(), 'cut': st.integers(0, 12)})
extra_word = st.sampled_from(['file', 'a', '', 'é', '-', 'x=y', '\udc80', 'no-alpha'])

@st.composite
def opt_case(draw):
    return {'spec': draw(spec()), 'uses': draw(st.lists(st.one_of(use, extra_word), max_size=8)), 'tail': draw(st.one_of(st.none(), st.lists(st.one_of(extra_word, st.sampled_from(['-a', '--alpha', '--'])), max_size=3))),
            'bad': draw(st.sampled_from([None] * 20 + ['--nothing', '-Q', '--zeta=4', '-Qa', '--no-nothing'])), 'badpos': draw(st.integers(0, 8)), 'text': draw(st.booleans())}

def key(o):
    return o['names'][0]

def intify(v):
    return int(v) if re.fullmatch(r'0|-?[1-9][0-9]*', v) else v

def spec_text(c):
    lines = ['bup thing [options...] <files...>', 'bup other', '--']
    for i, o in enumerate(c['spec']):
        if c['text'] and i % 2:
            lines.append(' A group of options:')
        names = ['no-' + n if n in o['neg'] else n for n in o['names']]
        lines.append(','.join(names) + ('=' if o['parm'] else '') + '  what it does (once)' + (' [%s]' % o['default'] if o['default'] is not None else ''))
    return '\n' + '\n'.join(lines) + '\n'

def opt_plan(c):
    """(argv, expected values by name, expected extra, expected flags)"""
    state = {}
    for o in c['spec']:
        v = intify(o['default']) if o['default'] is not None else None
        state[key(o)] = not v if key(o) in o['neg'] else v
    argv, flags, extra = [], [], []
    group = None        # index of an argument short options may be added to
    alln = [n for o in c['spec'] for n in o['names'] if len(n) > 1] + ['help', 'usage'] + ['no-' + n for o in c['spec'] for n in o['names'] if len(n) > 1]
    def turn(o, n, off):
        count = (state[key(o)] or 0) + 1
        state[key(o)] = not count if against(o, n) ^ off else count
    for u in c['uses']:
        if isinstance(u, str):
            argv.append(u)
            extra.append(u)
            group = None
            continue
        o = c['spec'][u['o'] % len(c['spec'])]
        n = o['names'][u['n'] % len(o['names'])]
        if o['digits']:
            n = '#'
            state['#'] = u['d']
            word = str(u['d'])
            if u['group'] and group is not None:
                argv[group] += word
            else:
                argv.append('-' + word)
                group = len(argv) - 1
            flags.append(('-' + word, ''))
            continue
        if len(n) == 1:
            if o['parm']:
                state[key(o)] = intify(u['v'])
                flags.append(('-' + n, u['v']))
                if u['group'] and group is not None:
                    argv[group] += n
                else:
                    argv.append('-' + n)
                if u['form'] == 'next' or not u['v']:
                    argv.append(u['v'])
                else:
                    argv[-1] += u['v']
                group = None
            else:
                turn(o, n, False)
                flags.append(('-' + n, ''))
                if u['group'] and group is not None:
                    argv[group] += n
                else:
                    argv.append('-' + n)
                    group = len(argv) - 1
            continue
        group = None
        if o['parm']:
            full = n
            state[key(o)] = intify(u['v'])
            flags.append(('--' + full, u['v']))
            w = prefix(full, alln, u['cut'])
            if u['form'] == 'next':
                argv += ['--' + w, u['v']]
            else:
                argv.append('--' + w + '=' + u['v'])
        else:
            full = 'no-' + n if u['no'] else n
            turn(o, n, u['no'])
            flags.append(('--' + full, ''))
            argv.append('--' + full)
    if c['tail'] is not None:
        argv.append('--')
        argv += c['tail']
        extra += c['tail']
    return argv, state, extra, flags

def against(o, n):
    """Whether a name means the opposite of the first name."""
    return (n in o['neg']) != (key(o) in o['neg'])

def prefix(n, alln, cut):
    """An unambiguous abbreviation."""
    for k in range(max(1, min(cut, len(n))), len(n) + 1):
        if [x for x in alln if x.startswith(n[:k])] == [n]:
            return n[:k]
    return n

def run_opt(c, ctx):
    argv, want, extra, flags = opt_plan(c)
    if c['bad']:
        k = min(c['badpos'], len(argv))
        # not where it would be a value, nor after --
        if '--' in argv[:k] or (k and k < len(argv) + 1 and argv[k - 1].startswith('-')):
            k = 0
        argv.insert(k, c['bad'])
    text = spec_text(c)
    bs = [a.encode(errors='surrogateescape') for a in argv]
    def go():
        from bup import options
        class Quit(Exception):
            pass
        o = options.Options(text, onabort=lambda msg: Quit(str(msg)))
        try:
            opt, fl, ex = o.parse_bytes(bs)
        except Quit as e:
            return 'quit'
        vals = {}
        for s in c['spec']:
            for n in s['names']:
                vals[n] = opt[n]
                if len(n) > 1:
                    vals['no-' + n] = opt['no-' + n]
                    vals['attr ' + n] = getattr(opt, n.replace('-', '_'))
        return vals, fl, ex
    ok, got = in_child(go)
    require(ok, 'parsing options died', argv, text, got)
    if c['bad']:
        require(got == 'quit', 'an unknown option was accepted', argv, text, got)
        ctx.label('bad')
        return
    require(got != 'quit', 'valid arguments rejected', argv, text)
    vals, fl, ex = got
    for s in c['spec']:
        for n in s['names']:
            w = not want[key(s)] if against(s, n) else want[key(s)]
            same(vals[n], w, n, argv, text)
            if len(n) > 1:
                same(vals['attr ' + n], w, n, argv, text)
                same(bool(vals['no-' + n]), not w, 'no-' + n, argv, text)
    require(ex == extra, 'positional arguments differ', {'want': extra, 'got': ex, 'argv': argv, 'spec': text})
    require([tuple(x) for x in fl] == flags, 'flags reported differ', {'want': flags, 'got': fl, 'argv': argv, 'spec': text})
    ctx.nontrivial(len(flags) >= 2)

def same(got, want, n, argv, text):
    require(got == want and isinstance(got, type(want)) or (got == want and isinstance(got, (int, bool)) and isinstance(want, (int, bool))),
            'option %s has the wrong value' % n, {'want': want, 'got': got, 'argv': argv, 'spec': text})

# ---- shell words

PIECES = [b'a', b'bc', b' ', b'\t', b'\n', b'\r', b"'", b'"', b'\\', b'\\\\', b'/', b'\xff', b'\xc3\xa9', b'$', b'*', b'.', b'x', b'\x0b', b'\x0c', b'\x00', b'~', b'#']
word = st.lists(st.sampled_from(PIECES), max_size=5).map(b''.join)
# words of a line, written by hand: (how, content, space after)
written = st.tuples(st.sampled_from(['bare', 'bare', 'q', 'qq', 'mixed']), word, st.sampled_from([b' ', b'  ', b'\t', b'\r\n', b'']))

@st.composite
def quote_case(draw):
    return {'words': draw(st.lists(word, max_size=5)), 'line': draw(st.lists(written, max_size=5)), 'lead': draw(st.sampled_from([b'', b' ', b'\n'])),
            'typed': draw(word), 'more': draw(word), 'qt': draw(st.sampled_from([b'', b"'", b'"'])), 'term': draw(st.booleans())}

def write_word(how, w):
    """(text, the word it stands for, quoted) by the documented rules, or None."""
    if how == 'q':
        if re.search(rb"(?<!\\)(\\\\)*\\('|$)", w) or b'\\' in w:
            return None
        return b"'" + w.replace(b"'", b"\\'") + b"'", w, True
    if how == 'qq':
        return b'"' + w.replace(b'\\', b'\\\\').replace(b'"', b'\\"') + b'"', w, True
    if not w:
        return None
    if how == 'mixed':
        # quotes inside a word are ordinary
        w = b'm' + w
        return re.sub(rb'([\\ \t\n\r])', rb'\\\1', w), w, False
    return re.sub(rb'([\\ \t\n\r"\'])', rb'\\\1', w), w, False

def run_quote(c, ctx):
    line, want = c['lead'], []
    sep = True
    for how, w, sp in c['line']:
        x = write_word(how, w)
        if x is None:
            continue
        t, v, quoted = x
        if not sep:
            # a quoted word ends a word; anything else needs a space
            if not prev_quoted:
                line += b' '
        want.append((len(line), v))
        line += t + sp
        sep, prev_quoted = bool(sp), quoted
    def go():
        from bup import shquote as s
        out = {'split': s.quotesplit(line), 'list': s.quotify_list(c['words'])}
        out['back'] = s.quotesplit(out['list'])
        out['joined'] = []
        for w in c['words']:
            for qt in (b'', b'"', b"'"):
                if qt == b'' and not w:
                    continue
                if qt == b"'" and odd(w):
                    continue
                t = s.quotify(qt, w, True)
                out['joined'].append((qt, w, t, s.quotesplit(b'ls ' + t + b' z')))
        # completing
        part = s.quotify(c['qt'], c['typed'], False)
        pre = b'get abc ' + part
        out['part'] = s.unfinished_word(pre)
        add = s.what_to_add(c['qt'], c['typed'], c['typed'] + c['more'], c['term'])
        out['added'] = pre + add
        out['final'] = s.quotesplit(pre + add)
        out['no'] = s.what_to_add(c['qt'], c['typed'] + b'x', c['typed'], c['term'])
        return out
    ok, got = in_child(go)
    require(ok, 'quoting died', c, got)
    require(got['split'] == want, 'a line splits into the wrong words', {'line': line, 'want': want, 'got': got['split']})
    require([w for _, w in got['back']] == c['words'], 'a quoted list does not split back', {'words': c['words'], 'quoted': got['list'], 'got': got['back']})
    for qt, w, t, back in got['joined']:
        require([x for _, x in back] == [b'ls', w, b'z'], 'a quoted word does not split back', {'type': qt, 'word': w, 'quoted': t, 'got': back})
    whole = c['typed'] + c['more']
    if c['typed'] and not (c['qt'] == b"'" and (odd(c['typed']) or odd(whole))):
        require(got['part'] == (c['qt'] or None, c['typed']), 'unfinished word', {'want': (c['qt'], c['typed']), 'got': got['part']})
        require([w for _, w in got['final']] == [b'get', b'abc', whole], 'a completed word splits into something else', {'line': got['added'], 'want': whole, 'got': got['final']})
        ctx.label('completed')
    require(got['no'] == b'', 'completion of a word that does not match', got['no'])
    ctx.nontrivial(any(re.search(rb'[\s\'"\\]', w) for w in c['words']))

def odd(w):
    """Cannot be written between single quotes: a backslash before a quote or the end."""
    return re.search(rb"(?<!\\)(\\\\)*\\('|$)", w) is not None or b"\\" in w

# ---- sizes

UNITS = {'': 1, 'b': 1, 'k': 1024, 'kb': 1024, 'm': 1024**2, 'mb': 1024**2, 'g': 1024**3, 'gb': 1024**3, 't': 1024**4, 'tb': 1024**4}

size_case = st.lists(st.tuples(st.integers(0, 10**12), st.sampled_from([1, 1, 10, 100, 1000]), st.sampled_from(sorted(UNITS)), st.sampled_from(['', '', ' ', '  ']), st.integers(0, 3),
                               st.sampled_from(['', '', '', '', 'x', 'kk', 'kib', 'p', 'bk', 'gbb', 'mt'])), min_size=1, max_size=30)

def run_size(c, ctx):
    rows = []
    for n, d, unit, sp, case, bad in c:
        if n > 10**6 and UNITS[unit] > 1:
            n %= 10**6
        num = str(n) if d == 1 else format(Decimal(n) / d, 'f')
        u = bad or unit
        u = [u, u.upper(), u.capitalize(), u][case]
        text = num + sp + u
        rows.append((text, None if bad else int(Decimal(num) * UNITS[unit]), bool(d > 1)))
    def go():
        from bup.helpers import parse_num
        out = []
        for t, w, approx in rows:
            for x in (t, t.encode()):
                try:
                    out.append(parse_num(x))
                except ValueError:
                    out.append(None)
        return out
    ok, got = in_child(go)
    require(ok, 'parse_num died', rows, got)
    for i, (t, w, approx) in enumerate(rows):
        for g in got[2 * i:2 * i + 2]:
            if w is None:
                require(g is None, 'a size with an unknown unit was accepted', t, g)
            else:
                require(g is not None and (abs(g - w) <= 1 + w * 1e-15 if approx else g == w), 'a size is read wrongly', {'text': t, 'want': w, 'got': g})
    ctx.nontrivial(len(c) > 2)

# ---- URLs

def hosts():
    return st.one_of(st.just(b''), st.sampled_from([b'h', b'example.org', b'a%b', b'[x]', b'a:b', b'a/b', b'\xff\xfe', b'a b', b'A-b_c~', b'a@b', b'x?y#z', b'-']),
                     st.integers(0, 2**32 - 1).map(lambda n: str(IPv4Address(n))), st.integers(0, 2**128 - 1).map(lambda n: str(IPv6Address(n))), st.sampled_from(['::1', '::', '127.0.0.1', '::ffff:1.2.3.4']))

@st.composite
def url_case(draw):
    return {'scheme': draw(st.sampled_from([b'ssh', b'bup', b'file', b'x-y.z+1', b'S'])), 'host': draw(hosts()), 'port': draw(st.sampled_from([None, None, None, 0, 1, 22, 1982, 65535])),
            'user': draw(st.sampled_from([b'', b'', b'', b'u', b'a:b', b'a@b', b'\xff', b'u%41', b'a/b', b'x y', b':'])),
            'path': draw(st.one_of(st.sampled_from([b'', b'/', b'x', b'/x', b'//x', b'./x', b'x//y', b'/a b', b'a@b:c', b'\xff', b'%41', b'/x%2fy', b'a?b#c', b'.', b'..', b'/..', b'a\nb', b'/a\nb', b'///', b'x:y', b'://', b'/\n']), word)),
            'remote': draw(st.tuples(st.sampled_from([b'', b'', b'u@', b'a@b@', b'u:x@']), st.sampled_from([b'h', b'-', b'example.org', b'1.2.3.4', b'a b', b'']), st.sampled_from([b':', b':', b':', b'']),
                                     st.sampled_from([b'', b'p', b'/p/q', b'a:b', b'//x', b'./y', b'\xff'])))}

def run_url(c, ctx):
    host = c['host']
    if isinstance(host, str):
        host = IPv4Address(host) if '.' in host and ':' not in host else IPv6Address(host)
    rel = c['path'] and not c['path'].startswith(b'/')
    auth = bool(host or c['user'] or c['port'] is not None)
    def go():
        from bup import url
        from bup.config import url_for_remote_opt
        u = url.URL(scheme=c['scheme'], host=host, port=c['port'], user=c['user'], path=c['path'])
        out = {}
        for enc in (False, True):
            try:
                t = url.render_url(u, dot_encode=enc)
            except ValueError:
                out[enc] = 'refused'
                continue
            p = url.parse_path_oriented_url(t)
            out[enc] = (t, p if isinstance(p, (str, type(None))) else {'scheme': p.scheme, 'host': p.host, 'port': p.port, 'user': p.user, 'path': p.path})
        r = url_for_remote_opt(b''.join(c['remote']))
        out['remote'] = r if isinstance(r, (str, type(None))) else (r.scheme, r.host, r.port, r.user, r.path)
        return out
    ok, got = in_child(go)
    require(ok, 'handling URLs died', c, got)
    want = {'scheme': c['scheme'], 'host': host, 'port': c['port'], 'user': c['user'], 'path': c['path']}
    # no URL can stand for an absolute path that starts with a dot directory
    clear = not c['path'].startswith(b'/./')
    for enc in (False, True):
        if got[enc] == 'refused':
            require(auth and rel and not enc, 'a URL could not be written', c, enc)
            ctx.label('refused')
            continue
        require(not (auth and rel and not enc), 'a relative path after an authority was not refused', c, got[enc])
        if clear and not (c['path'].startswith(b'//./')and not auth):
            require(got[enc][1] == want, 'a URL does not read back', {'want': want, 'got': got[enc]})
    user, h, colon, path = c['remote']
    r = got['remote']
    if colon and not h or not colon and b':' not in path + user:
        require(isinstance(r, str), 'a remote without a host or a colon was accepted', c['remote'], r)
    elif colon and not path.startswith(b'//'):
        wanted = (b'ssh', b'' if h == b'-' else h, None, b'' if h == b'-' else user[:-1], path)
        require(r == wanted, 'a remote is read wrongly', {'remote': b''.join(c['remote']), 'want': wanted, 'got': r})
    ctx.nontrivial(auth)

# ---- repository configuration

OPTS = ['bup.split.trees', 'bup.split.files', 'pack.packsizelimit', 'core.compression', 'pack.compression', 'bup.x.y', 'bup.server.deduplicate-writes']
RAW = ['1', '0', 'true', 'false', 'True', 'yes', 'no', 'on', '', '-1', '+7', '007', '010', '0x10', '10k', '10K', '2m', '3g', '1t', '1.5', ' 12 ', '"12"', '"a b"', '" lead"', 'x # c', 'x ; c', '"x # c"', 'a\\"b', 'a\\tb',
       'a\\\\b', 'long\\\n  er', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '9223372036854775807k', '8388608g', '1000000000000g', 'legacy:13', 'legacy:16', 'é', 'k', '1 k', '1kk', '--1', '0x', '08', 'tru']

config_case = st.fixed_dictionaries({'lines': st.lists(st.tuples(st.sampled_from(OPTS), st.sampled_from(RAW), st.sampled_from(['=', ' = ', '\t=\t', 'none'])), max_size=6), 'style': st.booleans()})

def run_config(c, ctx):
    f = ctx.bdir + b'/config'
    def write(lines):
        text = ''
        for o, v, eq in lines:
            parts = o.split('.')
            sec = '[%s]' % parts[0] if len(parts) == 2 else '[%s "%s"]' % (parts[0], '.'.join(parts[1:-1]))
            k = parts[-1].upper() if c['style'] else parts[-1]
            text += sec + '\n' + ('\t' + k if eq == 'none' else '\t' + k + eq + v) + '\n'
        return text
    text = write(c['lines'])
    with open(f, 'wb') as fh:
        fh.write(text.encode())
    def git(o, typ):
        p = subprocess.run(['git', 'config', '--file', f, '--null', *(['--type', typ] if typ else []), '--get', o], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env={'PATH': os.environ['PATH'], 'HOME': '/nonexistent', 'GIT_DIR': '/dev/null'})
        return p.returncode, p.stdout
    names = sorted({o for o, v, e in c['lines']} | {'bup.absent'})
    def go():
        from bup import git as g
        from bup.config import ConfigError
        out = {}
        for o in names:
            for t in (None, 'int', 'bool'):
                try:
                    out[o, t] = ('ok', g.git_config_get(f, o.encode(), opttype=t))
                except (ConfigError, g.GitError, g.ConfigError):
                    out[o, t] = ('err', None)
        return out
    ok, got = in_child(go)
    require(ok, 'reading the configuration died', text, got)
    for o in names:
        rc, raw = git(o, None)
        for t in (None, 'int', 'bool'):
            state, v = got[o, t]
            if rc == 1:
                require((state, v) == ('ok', None), 'a value for an absent option', o, t, v)
                continue
            if rc:
                require(state == 'err', 'a broken configuration was accepted', text, o)
                continue
            raw2 = raw[:-1]
            if t is None:
                # an empty value is refused
                require((state, v) == ('ok', raw2) or not raw2 and state == 'err', 'an option differs from what git reads', {'file': text, 'option': o, 'want': raw2, 'got': v})
            elif t == 'int':
                # with --type, git looks at all of the values, not just the last
                with open(f, 'wb') as fh:
                    fh.write(write([x for x in c['lines'] if x[0] == o][-1:]).encode())
                grc, gv = git(o, 'int')
                with open(f, 'wb') as fh:
                    fh.write(text.encode())
                if grc == 0:
                    require((state, v) == ('ok', int(gv[:-1])) or not raw2, 'a number differs from what git reads', {'file': text, 'option': o, 'want': gv, 'got': (state, v)})
                else:
                    require(state == 'err', 'a bad number was accepted', {'file': text, 'option': o, 'raw': raw2, 'got': v})
            else:
                strict = {b'0': False, b'false': False, b'1': True, b'true': True}
                if raw2 in strict:
                    require((state, v) == ('ok', strict[raw2]), 'a boolean is read wrongly', raw2, v)
                else:
                    require(state == 'err', 'a bad boolean was accepted', raw2, v)
    ctx.nontrivial(bool(c['lines']))

# ---- commands: documented options exist, unknown ones are refused

def documented(src):
    """[(command, option, takes a value)] from the manual pages."""
    out = []
    d = os.path.join(src, 'Documentation')
    for n in sorted(os.listdir(d)):
        m = re.fullmatch(r'bup-(.*)\.1\.md', n)
        if not m:
            continue
        with open(os.path.join(d, n), encoding='utf-8') as f:
            text = f.read().replace('\\', '')
        for l in re.findall(r'(?m)^(-.*)$\n+:', text):
            arg = ''.join(re.findall(r'[= ](?=\*|<|\[|[a-z])(?!-)[^,]*', l))
            if '--max-files' in l or '--delete' in l:
                arg = 'N'
            for o in re.split(r', *', l):
                o = o.strip().replace('*', '')
                o = re.sub(r'\[no-\]', '', o)
                m2 = re.match(r'(--?[A-Za-z0-9#][-A-Za-z0-9]*)(.*)$', o)
                if m2:
                    out.append((m.group(1), m2.group(1), m2.group(2) or arg))
    return out

@st.composite
def cli_case(draw):
    return {'picks': draw(st.lists(st.integers(0, 2000), min_size=1, max_size=4)), 'bogus': draw(st.sampled_from(['--bogus-zz', '-Ω', '--no-bogus-zz']))}

SKIP = {'daemon', 'web', 'fuse', 'memtest', 'on', 'server', 'mux', 'demux', 'on--server', 'tick', 'help', 'features', 'import-rdiff-backup', 'import-rsnapshot', 'config', 'cat-file'}
_docs = {}

def run_cli(c, ctx):
    src = os.environ.get('VERIF_REPO') or '/repo'
    if src not in _docs:
        _docs[src] = documented(src)
    docs = _docs[src]
    by = {}
    for cmd, o, arg in docs:
        if cmd not in SKIP:
            by.setdefault(cmd, []).append((o, arg))
    cmds = sorted(by)
    repo = ops.init(ctx, ctx.bdir + b'/repo', {})
    cmd = cmds[c['picks'][0] % len(cmds)]
    argv = []
    if cmd != 'get':
        for i in c['picks'][1:]:
            o, arg = by[cmd][i % len(by[cmd])]
            if o in ('-#',):
                argv.append('-3')
            elif o in ('--help', '-h'):
                continue
            else:
                argv.append(o)
                if arg.strip() and not arg.startswith('['):
                    argv.append('1')
    argv.append(c['bogus'] if cmd != 'get' else '--bogus-zz')
    r = ctx.bup('-d', repo, cmd, *argv, timeout=60)
    require(r.rc != 0, 'an unknown option was accepted', cmd, argv)
    require(b'Traceback' not in r.err, 'a traceback for an unknown option', cmd, argv, r.err[-300:])
    require(argv[-1].lstrip('-').encode() in r.err, 'the unknown option is not what was complained about', cmd, argv, r.err[-300:])
    ctx.nontrivial(len(argv) > 1)

SUITES = [Suite('options', opt_case, run_opt, quick=1500, thorough=60000, rule='at least two options are given', shards=8),
          Suite('quoting', quote_case, run_quote, quick=1500, thorough=60000, rule='a word needs quoting', shards=8),
          Suite('sizes', lambda: size_case, run_size, quick=300, thorough=6000, rule='more than two sizes', shards=4),
          Suite('urls', url_case, run_url, quick=1500, thorough=40000, rule='the URL has an authority', shards=8),
          Suite('config', lambda: config_case, run_config, quick=250, thorough=6000, rule='some option is set', shards=8),
          Suite('commands', cli_case, run_cli, quick=150, thorough=2500, rule='documented options precede the unknown one', shards=8)]
TECHNIQUE = 'generated option specifications, lines, URLs, sizes and configuration files with the meaning known by construction or from git'
