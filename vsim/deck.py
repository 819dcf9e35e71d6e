"""Writes input decks and meshes from scenario dictionaries."""
import os, random


def fl(v):
    return repr(float(v))


def _xml(d, ind, out):
    for k, v in d.items():
        k = str(k)
        if isinstance(v, dict):
            out.append('%s<ParameterList name="%s">' % (ind, k))
            _xml(v, ind + '  ', out)
            out.append('%s</ParameterList>' % ind)
        else:
            if isinstance(v, bool):
                t, s = 'bool', 'true' if v else 'false'
            elif isinstance(v, int):
                t, s = 'int', str(v)
            elif isinstance(v, float):
                t, s = 'double', fl(v)
            else:
                t, s = 'string', str(v)
            out.append('%s<Parameter name="%s" type="%s" value="%s"/>' % (ind, k, t, s.replace('&', '&amp;').replace('<', '&lt;')))


def to_xml(d):
    out = ['<ParameterList>']
    _xml(d, '  ', out)
    out.append('</ParameterList>')
    return '\n'.join(out) + '\n'


def _yaml(d, ind, out):
    for k, v in d.items():
        k = k.strip()  # blanks around a name cannot be written in YAML
        if isinstance(v, dict):
            out.append('%s%s:' % (ind, k))
            _yaml(v, ind + '  ', out)
        elif isinstance(v, bool):
            out.append('%s%s: %s' % (ind, k, 'true' if v else 'false'))
        elif isinstance(v, int):
            out.append('%s%s: %d' % (ind, k, v))
        elif isinstance(v, float):
            s = repr(v)
            if 'e' in s and '.' not in s:
                s = s.replace('e', '.0e')
            out.append('%s%s: %s' % (ind, k, s))
        else:
            out.append('%s%s: "%s"' % (ind, k, v))


def to_yaml(d):
    out = ['Peridigm:']
    _yaml(d, '  ', out)
    return '\n'.join(out) + '\n'


def mesh_text(mesh):
    """mesh['style'] varies the layout of the lines without changing a value; mesh['bad'] replaces the line of one point"""
    pts = mesh['pts']
    st = mesh.get('style')
    rng = random.Random(st) if st else None
    nl = rng.choice(['\n', '\n', '\r\n']) if rng else '\n'
    out = ['# x y z block volume']
    bad = mesh.get('bad')
    for i, (x, y, z, b, v) in enumerate(pts):
        t = [fl(x), fl(y), fl(z), '%d' % b, fl(v)]
        if rng:
            for k in range(5):
                u = rng.random()
                if u < 0.1 and k != 3:
                    t[k] = '%.17e' % float(t[k])
                elif u < 0.15 and k != 3:
                    t[k] = '%.17G' % float(t[k])
                elif u < 0.2 and not t[k].startswith('-'):
                    t[k] = '+' + t[k]
                elif u < 0.25 and k == 3:
                    t[k] = '%d.0' % b
            line = t[0]
            for w in t[1:]:
                line += rng.choice([' ', ' ', '  ', '\t', ' \t ']) + w
            line = rng.choice(['', '', ' ', '\t']) + line + rng.choice(['', '', ' ', '\t', ' # a comment', ' // point %d' % i])
            if rng.random() < 0.05:
                out.append(rng.choice([('' if nl == '\n' else '#'), '# 1 2 3 1 1', '  * 4 5 6 1 1.0', '/ text']))
        else:
            line = ' '.join(t)
        if bad and bad[0] % len(pts) == i:
            line = bad_line(bad[1], t)
        out.append(line)
    return nl.join(out) + ('' if rng and rng.random() < 0.3 else nl)


def bad_line(kind, t):
    t = list(t)
    if kind == 'four':
        t.pop()
    elif kind == 'six':
        t.append('1.0')
    elif kind == 'fraction':
        t[3] += '.5'
    elif kind == 'word':
        t[1] = 'abc'
    elif kind == 'fortran':
        t[4] = '1.5D-1'
    elif kind == 'glued':
        t[4] = '1.5x'
    elif kind == 'comma':
        return ','.join(t)
    elif kind == 'commas':
        return ', '.join(t)
    elif kind == 'huge':
        t[0] = '1e999'
    elif kind == 'hugeblock':
        t[3] = '1e12'
    elif kind == 'nan':
        t[2] = 'nan'
    elif kind == 'trailing':
        t.append('garbage')
    elif kind == 'block':
        t[3] = '77'
    return ' '.join(t)


def write(scen, d):
    """writes everything a job needs into directory d and returns the deck's file name"""
    for name, text in scen.get('files', {}).items():
        with open(os.path.join(d, name), 'w') as f:
            f.write(text)
    if scen.get('mesh', {}).get('kind') == 'text':
        with open(os.path.join(d, 'mesh.txt'), 'w') as f:
            f.write(mesh_text(scen['mesh']))
    y = scen.get('format') == 'yaml'
    name = 'deck.yaml' if y else 'deck.xml'
    with open(os.path.join(d, name), 'w') as f:
        f.write((to_yaml if y else to_xml)(scen['deck']))
    return name
