"""Writes input decks: nested dictionaries to the XML or YAML form Peridigm reads."""
from xml.sax.saxutils import quoteattr


def _num(x):
    s = repr(float(x))
    if "e" not in s and "." not in s and "n" not in s:
        s += ".0"
    return s


def to_xml(params, name=None, indent=0):
    pad = "  " * indent
    out = [pad + ("<ParameterList>" if name is None else "<ParameterList name=%s>" % quoteattr(name))]
    for k, v in params.items():
        if isinstance(v, dict):
            out.append(to_xml(v, k, indent + 1))
            continue
        if isinstance(v, bool):
            t, s = "bool", "true" if v else "false"
        elif isinstance(v, int):
            t, s = "int", str(v)
        elif isinstance(v, float):
            t, s = "double", _num(v)
        else:
            t, s = "string", str(v)
        out.append("%s  <Parameter name=%s type=%s value=%s/>" % (pad, quoteattr(k), quoteattr(t), quoteattr(s)))
    out.append(pad + "</ParameterList>")
    return "\n".join(out)


def _yaml_str(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def _yaml_num(x):
    s = _num(x)
    if "e" in s and "." not in s:
        s = s.replace("e", ".0e")
    return s


def _yaml(params, indent):
    pad = "  " * indent
    out = []
    for k, v in params.items():
        if isinstance(v, dict):
            if v:
                out.append("%s%s:" % (pad, _yaml_str(k)))
                out += _yaml(v, indent + 1)
            else:
                out.append("%s%s: {}" % (pad, _yaml_str(k)))
        elif isinstance(v, bool):
            out.append("%s%s: %s" % (pad, _yaml_str(k), "true" if v else "false"))
        elif isinstance(v, int):
            out.append("%s%s: %d" % (pad, _yaml_str(k), v))
        elif isinstance(v, float):
            out.append("%s%s: %s" % (pad, _yaml_str(k), _yaml_num(v)))
        else:
            out.append("%s%s: %s" % (pad, _yaml_str(k), _yaml_str(str(v))))
    return out


def to_yaml(params):
    return "\n".join(["Peridigm:"] + _yaml(params, 1)) + "\n"


def text_mesh(coords, blocks, volumes):
    return "".join("%r %r %r %d %r\n" % (float(x[0]), float(x[1]), float(x[2]), int(b), float(v))
                   for x, b, v in zip(coords, blocks, volumes))
