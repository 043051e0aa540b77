"""Canonical (context independent) names of abstract values and locations."""


def loc_name(l, depth=0):
    if l is None or depth > 12:
        return '?'
    k = l[0]
    if k == 'v':
        return 'L%d:%s' % (l[1], l[2].split(':')[-1]) if l[2].startswith(('L', 'P')) else 'L:' + l[2]
    if k == 'g':
        return l[1]
    if k == 'f':
        b = l[1]
        if b[0] == 'd':
            return val_name(b[1], depth + 1) + '->' + l[2]
        return loc_name(b, depth + 1) + '.' + l[2]
    if k == 'e':
        i = l[2]
        return loc_name(l[1], depth + 1) + '[%s]' % (i[1] if i[0] == 'c' else '*')
    if k == 'd':
        return '*' + val_name(l[1], depth + 1)
    return '?'


def val_name(v, depth=0):
    if v is None or depth > 12:
        return '?'
    k = v[0]
    if k == 'c':
        return str(v[1])
    if k == 'fn':
        return v[1]
    if k == '&':
        return '&' + loc_name(v[1], depth + 1)
    if k == 's':
        if v[1] in ('ld', 'uns', 'at') and len(v) > 3 and isinstance(v[2], tuple):
            return loc_name(v[2], depth + 1)
        if v[1] == 'P':
            return 'arg:' + v[2]
        if v[1] == 'ret':
            return '%s()' % (v[2],)
        return '<%s>' % v[1]
    if k == 'op':
        return '(' + ' '.join([val_name(x, depth + 1) if isinstance(x, tuple) else str(x) for x in v[1:]]) + ')'
    if k == 'cmp':
        return '(%s %s %s)' % (val_name(v[2], depth + 1), v[1], val_name(v[3], depth + 1))
    if k == 'not':
        return '!' + val_name(v[1], depth + 1)
    if k == 'str':
        return repr(v[1])
    return '<%s>' % k


def loc_field(l):
    """(record, field) of a location, or None"""
    while l[0] == 'e':
        l = l[1]
    return (l[3], l[2]) if l[0] == 'f' else None


def loc_fields(l):
    """all (record, field) selectors of a location, outermost first; follows loads"""
    out = []
    n = 0
    while l is not None and n < 30:
        n += 1
        if l[0] == 'f':
            out.append((l[3], l[2]))
            l = l[1]
        elif l[0] == 'e':
            l = l[1]
        elif l[0] == 'd':
            l = val_origin(l[1])
        else:
            out.append((l[0], l[-1]))
            break
    return list(reversed(out))


def val_origin(v):
    """location a pointer value was loaded from or points at, if known"""
    n = 0
    while v is not None and n < 20:
        n += 1
        if v[0] == '&':
            return v[1]
        if v[0] == 's' and v[1] in ('ld', 'uns', 'at') and isinstance(v[2], tuple):
            return v[2]
        if v[0] == 'op' and v[1] in ('+', '-'):
            v = v[2]
            continue
        return None
    return None
