"""
C25: for each scalar type all the texts of a bounded grammar (fields of dates
and times over grids that contain every boundary, all the octets, groups,
prefixes, hexadecimal forms, all the short patterns), all the texts one edit
away from them, and all the lists of numbers; all the values of a grid through
both dump forms. The oracle is arithmetic and parsers of this file; only for
texts outside of its grammar the standard library says if they denote a value.
"""
import itertools
import re as _re

from mc.diff import *

UTC = datetime.timezone.utc


# ------------------------------------------------------------ oracle

def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mdays(y, m):
    return [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def okdate(y, m, d):
    return 1 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= mdays(y, m)


def oktime(h, m, s, u):
    return 0 <= h <= 23 and 0 <= m <= 59 and 0 <= s <= 59 and 0 <= u <= 999999


DATE_RE = _re.compile(r'(\d{4})-(\d\d)-(\d\d)', _re.ASCII)
TIME_RE = _re.compile(r'(\d\d)(?::(\d\d)(?::(\d\d)(?:\.(\d{3}|\d{6}))?)?)?(Z|[+-]\d\d:\d\d(?::\d\d)?)?', _re.ASCII)
BAD = 'bad'
OUTSIDE = 'outside'


def parsedate(s):
    m = DATE_RE.fullmatch(s)
    if not m:
        return OUTSIDE
    f = tuple(map(int, m.groups()))
    return f if okdate(*f) else BAD


def parsetime(s):
    m = TIME_RE.fullmatch(s)
    if not m:
        return OUTSIDE
    h, mi, se, us, tz = m.groups()
    f = (int(h), int(mi or 0), int(se or 0), int((us or '0').ljust(6, '0')))
    if not oktime(*f):
        return BAD
    if tz is None:
        return f + (None,)
    if tz == 'Z':
        return f + (0,)
    p = list(map(int, tz[1:].split(':')))
    # an hour has 60 minutes, also in an offset, but that is up to the standard library
    if p[0] > 23 or any(i > 59 for i in p[1:]):
        return OUTSIDE
    sec = p[0] * 3600 + p[1] * 60 + (p[2] if len(p) > 2 else 0)
    return f + (sec if tz[0] == '+' else -sec,)


def fields(o):
    """What a date, time or datetime is, as numbers"""
    r = ()
    if isinstance(o, datetime.date):
        r += (o.year, o.month, o.day)
    if isinstance(o, (datetime.time, datetime.datetime)):
        off = o.utcoffset()
        r += (o.hour, o.minute, o.second, o.microsecond, None if off is None else off.days * 86400 + off.seconds)
    return r


def stdlib(py, v):
    try:
        return fields(py.fromisoformat(v))
    except Exception:
        return BAD


def textoracle(kind, s):
    if kind == 'date':
        r = parsedate(s)
    elif kind == 'time':
        r = parsetime(s)
    else:
        d = parsedate(s[:10])
        if len(s) == 10:
            r = d if d in (BAD, OUTSIDE) else d + (0, 0, 0, 0, None)
        elif s[10:11] in ('T', ' ') and d != OUTSIDE:
            t = parsetime(s[11:])
            r = OUTSIDE if t == OUTSIDE else BAD if BAD in (d, t) else d + t
        else:
            r = OUTSIDE
    return stdlib(getattr(datetime, kind), s) if r == OUTSIDE else r


def isotext(f):
    """The text of the fields of a date, time or datetime"""
    if len(f) == 3:
        return '%04d-%02d-%02d' % f
    t = f[-5:]
    r = '%02d:%02d:%02d' % t[:3] + ('.%06d' % t[3] if t[3] else '')
    if t[4] is not None:
        a = abs(t[4])
        r += ('+' if t[4] >= 0 else '-') + '%02d:%02d' % (a // 3600, a // 60 % 60) + (':%02d' % (a % 60) if a % 60 else '')
    return ('%04d-%02d-%02dT' % f[:3] if len(f) == 8 else '') + r


# ------------------------------------------------------------ the runs

CTX = [
    ('top', lambda t: t, lambda v: v, lambda r: r),
    ('List', lambda t: List[t], lambda v: [v], lambda r: r[0]),
    ('Tuple', lambda t: Tuple[int, t], lambda v: [1, v], lambda r: r[1]),
    ('Dict', lambda t: Dict[str, t], lambda v: {'k': v}, lambda r: r['k']),
    ('Optional', lambda t: Optional[t], lambda v: v, lambda r: r),
    ('NewType', lambda t: NewType('N25', t), lambda v: v, lambda r: r),
    ('NamedTuple', lambda t: NamedTuple('O25', [('f', t)]), lambda v: {'f': v}, lambda r: r.f),
]
CFGKW = [dict(), dict(basiccast=False, failonextra=True)]


def load_case(s, ctx, t, v, exp, key, shown, kw={}):
    """exp: BAD or the key of the value"""
    name, wt, wv, un = ctx
    s.states += 1
    s.validated += 1
    s.transitions += 1
    try:
        r = un(Loader(**kw).load(wv(v), wt(t)))
        got = key(r)
    except TypedloadException:
        got = BAD
    except Exception as e:
        got = 'crash %r' % e
    s.outcomes.add((str(t), got == BAD))
    if got != exp:
        what = 'load %r into %s (%s, %r): %s instead of %s' % (v, shown, name, kw, 'rejected' if got == BAD else got, 'being rejected' if exp == BAD else exp)
        s.bad(what, PRELUDE + 'import typedload\nprint(%r)\nprint(repr(typedload.load(%r, %s)))\n' % (what, v, shown))


def dump_case(s, value, exp, kw, key=None):
    s.states += 1
    s.validated += 1
    for name, w, un in (('top', lambda v: v, lambda r: r), ('list', lambda v: [v], lambda r: r[0]), ('dict', lambda v: {'k': v}, lambda r: r['k'])):
        s.transitions += 1
        try:
            r = un(Dumper(**kw).dump(w(value)))
        except Exception as e:
            r = e
        if type(r) is not type(exp) or r != exp or (type(r) is list and [type(i) for i in r] != [int] * len(r)):
            what = 'dump %r (%s) with %r: %r instead of %r' % (value, name, kw, r, exp)
            s.bad(what, PRELUDE + 'import typedload\nprint(%r)\nprint(typedload.dump(%r, **%r))\n' % (what, value, kw), key)


ALPHA = '01259-:.TZ+ Wx,/٣'


def edits1(text, alphabet):
    for i in range(len(text) + 1):
        if i < len(text):
            yield text[:i] + text[i + 1:]
        for a in alphabet:
            yield text[:i] + a + text[i:]
            if i < len(text):
                yield text[:i] + a + text[i + 1:]
        if i < len(text) - 1:
            yield text[:i] + text[i + 1] + text[i] + text[i + 2:]


def grids(quick):
    years = [0, 1, 4, 99, 100, 400, 1582, 1900, 1970, 1999, 2000, 2023, 2024, 2100, 9999] if not quick else [0, 1, 100, 400, 1900, 2000, 2023, 2024, 9999]
    hours = [0, 1, 9, 10, 12, 23, 24, 99] if not quick else [0, 1, 12, 23, 24]
    sixty = [0, 1, 9, 30, 59, 60, 99] if not quick else [0, 1, 59, 60]
    us = [None, 0, 1, 1000, 100000, 999999, 500000]
    tzs = ['', 'Z', '+00:00', '-00:00', '+01:00', '-05:30', '+23:59', '-23:59', '+14:00', '+00:01', '-00:30', '+01:02:03', '-23:59:59', '+24:00', '+00:60']
    return years, hours, sixty, us, tzs


def u_dates(y, s, quick):
    k = 0
    for m in range(0, 14):
        for d in range(0, 33):
            exp = (y, m, d) if okdate(y, m, d) else BAD
            text = '%04d-%02d-%02d' % (y, m, d)
            k += 1
            for ctx in CTX if not quick or k % 11 == 0 else [CTX[0], CTX[k % len(CTX)]]:
                load_case(s, ctx, datetime.date, text, exp, fields, 'datetime.date', CFGKW[k % 2])
                load_case(s, ctx, datetime.date, [y, m, d], exp, fields, 'datetime.date', CFGKW[k % 2])
            load_case(s, CTX[0], datetime.datetime, text, BAD if exp == BAD else exp + (0, 0, 0, 0, None), fields, 'datetime.datetime')
            load_case(s, CTX[0], datetime.datetime, (y, m, d), BAD if exp == BAD else exp + (0, 0, 0, 0, None), fields, 'datetime.datetime')
            load_case(s, CTX[0], datetime.date, [y, m, d, 0], BAD, fields, 'datetime.date')
            load_case(s, CTX[0], datetime.date, text + 'T00:00:00', textoracle('date', text + 'T00:00:00'), fields, 'datetime.date')
            if exp != BAD:
                v = datetime.date(y, m, d)
                dump_case(s, v, text, dict(isodates=True))
                dump_case(s, v, [y, m, d], dict())
            if s.full:
                return


def lossless(s, v):
    """The form without isodates has no place for the timezone: it is refused, or kept in some way"""
    s.states += 1
    s.validated += 1
    for w, un in ((lambda v: v, lambda r: r), (lambda v: [v], lambda r: r[0]), (lambda v: {'k': v}, lambda r: r['k'])):
        try:
            r = un(Dumper().dump(w(v)))
        except Exception:
            s.add('timezones_refused')
            continue
        try:
            back = Loader().load(r, type(v))
        except Exception as e:
            back = e
        if back != v or back.utcoffset() != v.utcoffset():
            s.bad('the dump of %r is %r that loads as %r' % (v, r, back), PRELUDE + 'import typedload\nv = %r\nr = typedload.dump(v)\nprint(v, r, typedload.load(r, type(v)))\nassert typedload.load(r, type(v)) == v\n' % (v,))


def u_times(h, s, quick):
    years, hours, sixty, us, tzs = grids(quick)
    k = 0
    for m in sixty:
        for se in sixty:
            for u in us:
                for tz in tzs:
                    k += 1
                    text = '%02d:%02d:%02d' % (h, m, se) + ('' if u is None else '.%06d' % u) + tz
                    exp = textoracle('time', text)
                    load_case(s, CTX[k % len(CTX)] if quick else CTX[0], datetime.time, text, exp, fields, 'datetime.time', CFGKW[k % 2])
                    for d in ('2024-02-29', '0001-01-01', '9999-12-31', '2023-02-29') if not quick else ('2024-02-29', '2023-02-29'):
                        for sep in 'T ':
                            dt = d + sep + text
                            load_case(s, CTX[(k // 7) % len(CTX)] if quick else CTX[k % len(CTX)], datetime.datetime, dt, textoracle('datetime', dt), fields, 'datetime.datetime', CFGKW[k % 2])
                    if exp != BAD:
                        kw = dict(isodates=True)
                        tzi = None if exp[4] is None else datetime.timezone(datetime.timedelta(seconds=exp[4]))
                        v = datetime.time(*exp[:4], tzinfo=tzi)
                        t = isotext(exp)
                        dump_case(s, v, t, kw)
                        load_case(s, CTX[0], datetime.time, t, exp, fields, 'datetime.time')
                        f = (2024, 2, 29) + exp
                        v = datetime.datetime(*f[:7], tzinfo=tzi)
                        dump_case(s, v, isotext(f), kw)
                        load_case(s, CTX[0], datetime.datetime, isotext(f), f, fields, 'datetime.datetime')
                        if tzi is None:
                            dump_case(s, v, list(f[:7]), dict())
                            load_case(s, CTX[k % len(CTX)], datetime.datetime, list(f[:7]), f, fields, 'datetime.datetime')
                            v = datetime.time(*exp[:4])
                            dump_case(s, v, list(exp[:4]), dict())
                            load_case(s, CTX[k % len(CTX)], datetime.time, list(exp[:4]), exp, fields, 'datetime.time')
                        else:
                            lossless(s, v)
                            lossless(s, datetime.time(*exp[:4], tzinfo=tzi))
                    if s.full:
                        return
            for short in ('%02d' % h, '%02d:%02d' % (h, m), '%02d:%02d:%02d.123' % (h, m, se)):
                for tz in tzs:
                    load_case(s, CTX[0], datetime.time, short + tz, textoracle('time', short + tz), fields, 'datetime.time')
                    load_case(s, CTX[0], datetime.datetime, '2000-01-01T' + short + tz, textoracle('datetime', '2000-01-01T' + short + tz), fields, 'datetime.datetime')
            for n in range(0, 6):
                l = [h, m, se, 5, 0][:n]
                f = l + [0] * (4 - len(l))
                exp = BAD if n == 5 or not oktime(*f[:4]) else tuple(f) + (None,)
                load_case(s, CTX[0], datetime.time, l, exp, fields, 'datetime.time')
                load_case(s, CTX[0], datetime.datetime, [2000, 1, 1] + l[:4], BAD if not oktime(*(l[:4] + [0] * (4 - len(l[:4])))) else (2000, 1, 1) + tuple(l[:4] + [0] * (4 - len(l[:4]))) + (None,), fields, 'datetime.datetime')


def u_edits(text, s, quick):
    for kind in ('date', 'time', 'datetime'):
        t = getattr(datetime, kind)
        seen = set()
        for e in itertools.chain([text], edits1(text, ALPHA)):
            if e in seen:
                continue
            seen.add(e)
            load_case(s, CTX[0], t, e, textoracle(kind, e), fields, 'datetime.' + kind)
            if not quick:
                for e2 in edits1(e, '0-:Z'):
                    if e2 not in seen:
                        seen.add(e2)
                        load_case(s, CTX[0], t, e2, textoracle(kind, e2), fields, 'datetime.' + kind)
            if s.full:
                return


def u_lists(n, s, quick):
    """Lists with things that are not numbers"""
    for kind, size in (('date', 3), ('time', 4), ('datetime', 7)):
        t = getattr(datetime, kind)
        base = {'date': [2020, 2, 3], 'time': [4, 5, 6, 7], 'datetime': [2020, 2, 3, 4, 5, 6, 7]}[kind]
        for i in range(size):
            for junk in (None, '1', 1.0, 1.5, [], {}, X('float("nan")'), -1, 10**30, '', X('Opaque()'), b'1'):
                l = list(base)
                l[i] = build(junk)
                load_case(s, CTX[n % len(CTX)], t, l, BAD, fields, 'datetime.' + kind)
        for extra in range(1, 4):
            load_case(s, CTX[n % len(CTX)], t, base + [0] * (extra + (1 if kind == 'datetime' else 0)), BAD, fields, 'datetime.' + kind)
        for junk in (None, 5, 1.5, b'2020-01-01', object(), {}, '', 'x'):
            # a time needs nothing
            exp = (0, 0, 0, 0, None) if kind == 'time' and junk == {} and type(junk) is dict else BAD
            if CTX[n % len(CTX)][0] == 'Optional' and junk is None:
                continue
            load_case(s, CTX[n % len(CTX)], t, junk, exp, fields, 'datetime.' + kind)


def us_of(td):
    return (td.days * 86400 + td.seconds) * 10**6 + td.microseconds


MAXUS = ((999999999 * 86400) + 86399) * 10**6 + 999999
MINUS = -999999999 * 86400 * 10**6


def u_delta(part, s, quick):
    days = [0, 1, -1, 2, 30, 365, -365, 36500, 90000, 98000, -98000, 99000, -99421, 99421, 100000, 999999999, -999999999, 500000000]
    secs = [0, 1, 59, 60, 3599, 3600, 86399]
    micros = [0, 1, 2, 3, 10, 999, 1000, 100000, 333333, 499999, 500000, 500001, 999998, 999999]
    d = days[part]
    for se in secs:
        for u in micros:
            v = datetime.timedelta(d, se, u)
            total = us_of(v)
            key = None
            if abs(total) >= 2**33 * 10**6 and u:
                # total_seconds() can't tell all the microseconds
                key = 'timedelta-of-more-than-270-years'
            for name, w, un in (('top', lambda v: v, lambda r: r), ('list', lambda v: [v], lambda r: r[0])):
                s.states += 1
                s.validated += 1
                r = un(Dumper().dump(w(v)))
                # the closest float to the exact number of seconds
                exact = __import__('fractions').Fraction(total, 10**6)
                if type(r) is not float or abs(exact - __import__('fractions').Fraction(r)) > abs(exact) / 2**52:
                    s.bad('dump %r: %r' % (v, r), PRELUDE)
                try:
                    back = Loader().load(r, datetime.timedelta)
                except Exception as e:
                    back = e
                    if isinstance(e, OverflowError):
                        s.bad('load %r: %r' % (r, e), PRELUDE)
                if back != v:
                    s.bad('the dump of %r is %r that loads as %r' % (v, r, back), PRELUDE + 'import typedload\nv = %r\nprint(v, typedload.load(typedload.dump(v), datetime.timedelta))\n' % v, key)
            if s.full:
                return
    # numbers of seconds
    f = __import__('fractions').Fraction
    nums = [d * 86400 + se for se in secs] + [float(d * 86400 + se) for se in secs] + [d * 86400 + 0.5, d * 86400 + 0.25, d * 86400 + 0.125, d * 86400 - 0.75]
    for n in nums:
        exact = f(n) * 10**6
        ok = MINUS <= round(exact) <= MAXUS
        for k, ctx in enumerate(CTX):
            load_case(s, ctx, datetime.timedelta, n, round(exact) if ok else BAD, us_of, 'datetime.timedelta', CFGKW[k % 2])
    for junk in ('1', None, [], {}, b'1', 1j, object(), float('inf'), float('-inf'), float('nan'), 10**15, -10**15, 1e15, 10**400, '', [1], datetime.timedelta(1)):
        for ctx in CTX:
            if junk is None and ctx[0] == 'Optional':
                continue
            load_case(s, ctx, datetime.timedelta, junk, BAD, us_of, 'datetime.timedelta')


# ---- ip

OCTETS = ['0', '1', '9', '10', '99', '100', '127', '255', '256', '00', '01', '', ' 1', '-1', '+1', 'a', '1a', '1000', '٣']


def octet(t):
    """RFC: decimal digits, no leading zeros"""
    return int(t) if t and len(t) <= 3 and all(c in '0123456789' for c in t) and (len(t) == 1 or t[0] != '0') and int(t) < 256 else None


def v4(text):
    p = text.split('.')
    o = [octet(x) for x in p]
    if len(p) != 4 or None in o:
        return BAD
    return o[0] << 24 | o[1] << 16 | o[2] << 8 | o[3]


def group(t):
    return int(t, 16) if 1 <= len(t) <= 4 and all(c in '0123456789abcdefABCDEF' for c in t) else None


def v6(text):
    """RFC 4291, with :: once, in the place of one or more groups; embedded IPv4"""
    if '%' in text or '/' in text:
        return OUTSIDE
    if text.count('::') > 1 or ':::' in text:
        return BAD
    def groups(x):
        if x == '':
            return []
        r = x.split(':')
        if '.' in r[-1]:
            q = v4(r[-1])
            if q == BAD:
                return None
            r[-1:] = ['%x' % (q >> 16), '%x' % (q & 0xffff)]
        g = [group(i) for i in r]
        return None if None in g else g
    if '::' in text:
        a, b = text.split('::')
        a, b = groups(a) if '.' not in a else None, groups(b)
        if a is None or b is None or len(a) + len(b) > 7:
            return BAD
        g = a + [0] * (8 - len(a) - len(b)) + b
    else:
        g = groups(text)
        if g is None or len(g) != 8:
            return BAD
    r = 0
    for i in g:
        r = r << 16 | i
    return r


def v6text(n):
    """RFC 5952"""
    g = [(n >> (112 - 16 * i)) & 0xffff for i in range(8)]
    best, at_ = 0, -1
    i = 0
    while i < 8:
        j = i
        while j < 8 and g[j] == 0:
            j += 1
        if j - i > best and j - i > 1:
            best, at_ = j - i, i
        i = max(j, i + 1)
    h = ['%x' % i for i in g]
    if at_ < 0:
        return ':'.join(h)
    return ':'.join(h[:at_]) + '::' + ':'.join(h[at_ + best:])


def u_ip4(a, s, quick):
    octs = OCTETS if not quick else OCTETS[:3] + ['255', '256', '01', '', ' 1', 'a', '٣']
    k = 0
    for rest in itertools.product(octs, repeat=3):
        text = '.'.join((a,) + rest)
        exp = v4(text)
        k += 1
        load_case(s, CTX[0] if k % 5 else CTX[k % len(CTX)], ipaddress.IPv4Address, text, exp, int, 'ipaddress.IPv4Address', CFGKW[k % 2])
        if exp != BAD:
            dump_case(s, ipaddress.IPv4Address(exp), text, {})
        if s.full:
            return
    for extra in ('', '.1', '.', ' ', '\n', '/8'):
        for n in range(1, 6):
            text = '.'.join([a] * n) + extra
            load_case(s, CTX[0], ipaddress.IPv4Address, text, v4(text), int, 'ipaddress.IPv4Address')
            load_case(s, CTX[0], ipaddress.IPv6Address, text, v6(text) if v6(text) != OUTSIDE else BAD, int, 'ipaddress.IPv6Address')


def u_net4(a, s, quick):
    """Networks and interfaces: every prefix, with the bits of the host zero or not"""
    base = v4(a)
    for p in list(range(0, 33)) + [33, 100, -1]:
        for form in ('%d', 'mask'):
            if form == 'mask':
                if not 0 <= p <= 32:
                    continue
                m = (2**32 - 1) >> (32 - p) << (32 - p) if p else 0
                suffix = '%d.%d.%d.%d' % (m >> 24, m >> 16 & 255, m >> 8 & 255, m & 255)
                if p == 0 or p == 32:
                    # also the masks of all zeros and ones
                    pass
            else:
                suffix = form % p
            text = a + '/' + suffix
            ok = 0 <= p <= 32
            m = ((2**32 - 1) >> (32 - p) << (32 - p)) if ok and p else 0
            exp = (base, p) if ok and base & ~m & (2**32 - 1) == 0 else BAD
            load_case(s, CTX[p % len(CTX)], ipaddress.IPv4Network, text, exp, lambda n: (int(n.network_address), n.prefixlen), 'ipaddress.IPv4Network')
            load_case(s, CTX[p % len(CTX)], ipaddress.IPv4Interface, text, (base, p) if ok else BAD, lambda n: (int(n.ip), n.network.prefixlen), 'ipaddress.IPv4Interface')
            if exp != BAD:
                dump_case(s, ipaddress.IPv4Network((base, p)), '%s/%d' % (a, p), {})
            if ok:
                dump_case(s, ipaddress.IPv4Interface((base, p)), '%s/%d' % (a, p), {})
            load_case(s, CTX[0], ipaddress.IPv4Address, text, BAD, int, 'ipaddress.IPv4Address')
    load_case(s, CTX[0], ipaddress.IPv4Network, a, (base, 32), lambda n: (int(n.network_address), n.prefixlen), 'ipaddress.IPv4Network')
    load_case(s, CTX[0], ipaddress.IPv4Interface, a, (base, 32), lambda n: (int(n.ip), n.network.prefixlen), 'ipaddress.IPv4Interface')


def u_ip6(mask, s, quick):
    """mask: which groups are not zero"""
    vals = ['1', 'a', 'ffff', '0abc', 'DB8', '10', '7', 'f0']
    g = [vals[i] if mask >> i & 1 else '0' for i in range(8)]
    forms = [':'.join(g), ':'.join(x.rjust(4, '0') for x in g)]
    for i in range(8):
        for j in range(i + 1, 9):
            forms.append(':'.join(g[:i]) + '::' + ':'.join(g[j:]))
    forms += [':'.join(g[:7]), ':'.join(g + ['1']), ':'.join(g[:6]) + ':1.2.3.4', '::' + ':'.join(g[:5]) + ':1.2.3.4', '::ffff:1.2.3.4', ':'.join(g) + ':', ':' + ':'.join(g), ':'.join(g[:3]) + '::' + g[4] + '::' + g[5], ':'.join(g[:7]) + ':12345', ':'.join(g[:7]) + ':g', ':::', '', ':'.join(g).upper(), ':'.join(g[:4]) + '::1.2.3.4', ':'.join(g[:4]) + '::1.2.3.256']
    for k, text in enumerate(forms):
        exp = v6(text)
        if exp == OUTSIDE:
            continue
        load_case(s, CTX[k % len(CTX)], ipaddress.IPv6Address, text, exp, int, 'ipaddress.IPv6Address', CFGKW[k % 2])
        load_case(s, CTX[0], ipaddress.IPv4Address, text, BAD, int, 'ipaddress.IPv4Address')
        if exp != BAD:
            dump_case(s, ipaddress.IPv6Address(exp), v6text(exp), {})
            for p in (0, 1, 16, 63, 64, 127, 128, 129) if quick else range(0, 130):
                t = '%s/%d' % (text, p)
                ok = p <= 128
                m = ((2**128 - 1) >> (128 - p) << (128 - p)) if p and ok else 0
                net = (exp, p) if ok and exp & ~m & (2**128 - 1) == 0 else BAD
                load_case(s, CTX[0], ipaddress.IPv6Network, t, net, lambda n: (int(n.network_address), n.prefixlen), 'ipaddress.IPv6Network')
                load_case(s, CTX[0], ipaddress.IPv6Interface, t, (exp, p) if ok else BAD, lambda n: (int(n.ip), n.network.prefixlen), 'ipaddress.IPv6Interface')
                if k == 0 and ok:
                    dump_case(s, ipaddress.IPv6Interface((exp, p)), '%s/%d' % (v6text(exp), p), {})
                    if net != BAD:
                        dump_case(s, ipaddress.IPv6Network(net), '%s/%d' % (v6text(exp), p), {})
        if s.full:
            return


def u_uuid(part, s, quick):
    digits = '0123456789abcdef'
    base = ''.join(digits[(i * 7 + part) % 16] for i in range(32))
    def hy(h):
        return '-'.join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))
    def case(text, h, k=0):
        exp = int(h, 16) if h else BAD
        load_case(s, CTX[k % len(CTX)], uuid.UUID, text, exp, lambda u: u.int, 'uuid.UUID', CFGKW[k % 2])
    for i in range(32):
        for c in digits + 'ABCDEF':
            h = base[:i] + c + base[i + 1:]
            for k, text in enumerate((h, hy(h), '{' + hy(h) + '}', 'urn:uuid:' + hy(h), h.upper())):
                case(text, h, k)
            u = uuid.UUID(int=int(h, 16))
            dump_case(s, u, hy(h.lower()), {})
        for c in 'gz.,:':
            h = base[:i] + c + base[i + 1:]
            case(h, None)
            case(hy(h), None)
        case(base[:i] + base[i + 1:], None)
        case(hy(base[:i] + base[i + 1:]), None)
        case(base[:i] + '0' + base[i:], None)
        if s.full:
            return
    for n in range(0, 40):
        case('0' * n, '0' if n == 32 else None)
    for junk in (None, 1, 1.5, [], {}, b'\0' * 16, (1, 2)):
        load_case(s, CTX[0], uuid.UUID, junk, BAD, lambda u: u.int, 'uuid.UUID')


PATALPHA = 'a(*[\\)|b{ ^'


def u_pattern(first, s, quick):
    n = 3 if quick else 4
    for k in range(0, n):
        for rest in itertools.product(PATALPHA, repeat=k):
            text = first + ''.join(rest)
            for v in (text, text.encode()):
                try:
                    ref = _re.compile(v)
                except Exception:
                    ref = None
                for shown in ('re.Pattern', 're.Pattern[str]', 're.Pattern[bytes]', 'Pattern[str]', 'Pattern[bytes]', 'Pattern'):
                    t = eval(shown, NS)
                    wrongtype = '[str]' in shown and type(v) is bytes or '[bytes]' in shown and type(v) is str
                    exp = BAD if ref is None or wrongtype else (type(v), v, ref.flags, ref.groups)
                    load_case(s, CTX[len(text) % len(CTX)], t, v, exp, lambda p: (type(p.pattern), p.pattern, p.flags, p.groups), shown)
                if ref is not None:
                    dump_case(s, ref, v, {})
            if s.full:
                return


def u_patjunk(_, s, quick):
    key = lambda p: p.pattern
    for shown in ('re.Pattern', 're.Pattern[str]', 're.Pattern[bytes]'):
        for ctx in CTX:
            for junk in (None, 1, 1.5, [], ['a'], {}, ('a',), 1j, object(), True, {'pattern': 'a'}):
                if junk is None and ctx[0] == 'Optional':
                    continue
                load_case(s, ctx, eval(shown, NS), junk, BAD, key, shown)
    # the flags are lost, the text is not
    for text in ('a', ' a ', 'a # b', '\ta\n', '(?x) a ', 'a b', '#', '', '^a$', ' ', '\n', '\u2003a', 'A'):
        for flags in (0, _re.X, _re.I, _re.M, _re.S, _re.A, _re.X | _re.I, _re.M | _re.S):
            for v in (text, text.encode()) if not flags & _re.U else (text,):
                dump_case(s, _re.compile(v, flags), v, {})
                dump_case(s, _re.compile(v, flags), v, dict(isodates=True, hidedefault=False))
        for ctx in CTX:
            for t in ('re.Pattern', 're.Pattern[str]'):
                load_case(s, ctx, eval(t, NS), text, (text, _re.compile(text).flags), lambda p: (p.pattern, p.flags), t)
    # flags written in the pattern
    for text in ('(?i)a', '(?x) a # b', '(?s).', '(?a)\\w', '(?P<n>a)(?P=n)', 'é', '\\d{2,3}?', '^a$', '(?<=a)b', '[^\\]]', '(?:a|b)+'):
        ref = _re.compile(text)
        for ctx in CTX:
            load_case(s, ctx, NS['re'].Pattern, text, (text, ref.flags), lambda p: (p.pattern, p.flags), 're.Pattern')
        dump_case(s, ref, text, {})
        for probe in ('a', 'A', ' a', 'ab', 'b', 'aa', '12', ''):
            s.states += 1
            p = Loader().load(text, _re.Pattern)
            if bool(p.search(probe)) != bool(ref.search(probe)):
                s.bad('the pattern %r loads as another pattern' % text)


PATHPARTS = ['a', '..', '.', '', 'b c', 'é', 'a.txt', '~', '\\', '*', ' ', ' a ', '$HOME', 'C:', '%20', 'a\0', '\0', 'b\n', '\udc80', 'e\u0301', '\ufeffa', 'A', 'A.', '...', '-', '#a', '?']


def u_path(first, s, quick):
    """Only repeated slashes and the parts that are a single dot are not kept"""
    for n in range(0, 3 if quick else 4):
        for rest in itertools.product(PATHPARTS, repeat=n):
            for prefix in ('', '/', '//'):
                text = prefix + '/'.join((first,) + rest)
                parts = [p for p in text.split('/') if p not in ('', '.')]
                root = '//' if text.startswith('//') and not text.startswith('///') else '/' if text.startswith('/') else ''
                norm = root + '/'.join(parts) or '.'
                load_case(s, CTX[n % len(CTX)], pathlib.Path, text, norm, str, 'pathlib.Path', CFGKW[n % 2])
                dump_case(s, pathlib.Path(norm), norm, {})
                s.states += 1
                if Loader().load(text, pathlib.Path) != pathlib.Path(text) or not isinstance(Loader().load(text, pathlib.Path), pathlib.Path):
                    s.bad('load %r into pathlib.Path' % text)
            if s.full:
                return
    for junk in (None, 1, 1.5, [], {}, b'a', ('a',), ['a', 'b'], True):
        for ctx in CTX:
            if junk is None and ctx[0] == 'Optional':
                continue
            load_case(s, ctx, pathlib.Path, junk, BAD, str, 'pathlib.Path')


class SubDate(datetime.date):
    pass


class SubTime(datetime.time):
    pass


class SubDatetime(datetime.datetime):
    pass


class SubDelta(datetime.timedelta):
    pass


class Temperature:
    """A class of the user that is made from a string"""
    def __init__(self, s):
        if type(s) is not str or s[-1:] != 'C':
            raise ValueError('not a temperature')
        self.v = float(s[:-1])

    def __str__(self):
        return '%sC' % self.v

    def __eq__(self, o):
        return type(o) is Temperature and o.v == self.v

    __hash__ = None


class OtherTemperature(Temperature):
    pass


def u_subclasses(_, s, quick):
    """Texts and values that are of a subclass"""
    sub = NS['SubStr']
    for kind, texts in (('date', ['2020-01-02', '2020-02-30', 'x']), ('time', ['10:20:30', '10:20:30.5Z', '25:00']), ('datetime', ['2020-01-02T10:20:30', '2020-01-02', '2020-01-02T10:20:30+05:30', ''])):
        for text in texts:
            for ctx in CTX:
                for kw in CFGKW:
                    load_case(s, ctx, getattr(datetime, kind), sub(text), textoracle(kind, text), fields, 'datetime.' + kind, kw)
    for y, m, d in ((1, 1, 1), (2020, 2, 29), (9999, 12, 31)):
        dump_case(s, SubDate(y, m, d), '%04d-%02d-%02d' % (y, m, d), dict(isodates=True))
        dump_case(s, SubDate(y, m, d), [y, m, d], dict())
        for h, mi, se, us in ((0, 0, 0, 0), (23, 59, 59, 999999), (1, 2, 3, 4)):
            for tz in (None, UTC):
                f = (y, m, d, h, mi, se, us, None if tz is None else 0)
                dump_case(s, SubDatetime(y, m, d, h, mi, se, us, tz), isotext(f), dict(isodates=True))
                dump_case(s, SubTime(h, mi, se, us, tz), isotext(f[3:]), dict(isodates=True))
                if tz is None:
                    dump_case(s, SubDatetime(y, m, d, h, mi, se, us), list(f[:7]), dict())
                    dump_case(s, SubTime(h, mi, se, us), list(f[3:7]), dict())
                else:
                    lossless(s, SubDatetime(y, m, d, h, mi, se, us, tz))
                    lossless(s, SubTime(h, mi, se, us, tz))
    for days, sec in ((0, 0), (1, 1), (-1, 5)):
        dump_case(s, SubDelta(days, sec), float(days * 86400 + sec), dict())


def u_strconstructed(_, s, quick):
    """Classes of the user made from strings, with the setting given in all the ways"""
    for way in ('argument', 'attribute', 'add', 'none', 'others'):
        def mk(c, **kw):
            if way in ('argument', 'others'):
                return c(strconstructed={Temperature if way == 'argument' else OtherTemperature}, **kw)
            o = c(**kw)
            if way == 'attribute':
                o.strconstructed = {Temperature}
            elif way == 'add':
                o.strconstructed.add(Temperature)
            return o
        on = way in ('argument', 'attribute', 'add')
        for name, wt, wv, un in CTX:
            for kw in CFGKW:
                for text in ('5C', '5.5C', 'x', '', 5, None, ['5C'], sub_('5C')):
                    if text is None and name == 'Optional':
                        continue
                    s.states += 1
                    s.validated += 1
                    try:
                        got = un(mk(Loader, **kw).load(wv(text), wt(Temperature)))
                    except TypedloadException:
                        got = BAD
                    except Exception as e:
                        got = 'crash %r' % e
                    # other objects, and subclasses of str, are up to it
                    exp = Temperature(text) if on and type(text) is str and text[-1:] == 'C' else BAD
                    if type(text) is not str and isinstance(text, str):
                        continue
                    if type(got) is not type(exp) or got != exp:
                        s.bad('load %r into %s of Temperature, in strconstructed of the loader by %s: %r instead of %r' % (text, name, way, got, exp))
            s.states += 1
            s.validated += 1
            try:
                got = mk(Dumper).dump(wv(Temperature('5C')))
            except Exception as e:
                got = BAD
            # what is not known can't be dumped
            exp = wv('5.0C') if on else BAD
            exp = [1, '5.0C'] if on and name == 'Tuple' else exp
            if type(got) is not type(exp) or got != exp:
                s.bad('dump of Temperature, in strconstructed of the dumper by %s, in %s: %r instead of %r' % (way, name, got, exp))


def sub_(text):
    return NS['SubStr'](text)


def u_keys(_, s, quick):
    """As keys of dictionaries, in both directions, and other settings of strconstructed"""
    cases = [('datetime.date', '2020-01-02'), ('uuid.UUID', '12345678-1234-5678-1234-567812345678'), ('ipaddress.IPv4Address', '1.2.3.4'), ('ipaddress.IPv6Network', '::/64'), ('pathlib.Path', 'a/b'), ('datetime.datetime', '2020-01-02T03:04:05+01:00'), ('datetime.time', '03:04:05')]
    for shown, text in cases:
        t = eval(shown, NS)
        s.states += 1
        s.validated += 1
        d = {text: 1}
        v = Loader().load(d, Dict[t, int])
        if not isinstance(list(v)[0], t) or Dumper(isodates=True).dump(v) != d:
            s.bad('load %r into Dict[%s, int]: %r' % (d, shown, v))


def run(tier, seed):
    quick = tier == 'quick'
    years, hours, sixty, us, tzs = grids(quick)
    texts = ['2020-01-02', '20200102', '2020-W01-4', '10:20:30', '10:20', '102030', '10:20:30.123456', '10:20:30Z', '10:20:30+05:30', '2020-02-29T23:59:59', '2020-02-29 23:59:59.000001-01:00', '2021-02-28T00:00Z', '20200229T235959', '2020-060', '24:00', '23:59:60']
    nets = ['0.0.0.0', '10.0.0.0', '10.1.2.3', '192.168.0.0', '192.168.1.128', '255.255.255.255', '128.0.0.0', '1.0.0.1']
    masks = [0, 1, 128, 255, 129, 60, 0x81, 0x18, 0xc3, 0x55, 0xaa, 0x0f, 0xf0, 0x7e, 2, 64] if quick else range(256)
    units = [(u_dates, y) for y in years] + [(u_times, h) for h in hours] + [(u_edits, t) for t in texts] + [(u_lists, n) for n in range(len(CTX))] + [(u_delta, p) for p in range(18)] + [(u_ip4, o) for o in (OCTETS if not quick else OCTETS[:3] + ['255', '256', '01', ''])] \
        + [(u_net4, a) for a in nets] + [(u_ip6, m) for m in masks] + [(u_uuid, p) for p in range(2 if quick else 8)] + [(u_pattern, c) for c in PATALPHA] + [(u_patjunk, 0), (u_subclasses, 0), (u_strconstructed, 0), (u_keys, 0)] + [(u_path, p) for p in PATHPARTS]
    def f(u, s):
        u[0](u[1], s, quick)
        s.sample('%s(%r)' % (u[0].__name__, u[1]), 1)
    total = core.explore(units, f)
    return total, dict(bound='all the texts of the grammars of this file over grids with all the boundaries, edits of %d texts by %d character%s, all the prefixes, all the patterns of up to %d characters of %r' % (len(texts), 1 if quick else 2, '' if quick else 's', 3 if quick else 4, PATALPHA),
                       assumptions=['texts that are not in the grammar of the oracle denote what datetime.fromisoformat says', 'other objects, such as integers for IP addresses, are unspecified', 'the date types do not have a form as a key of a dictionary without isodates'])
