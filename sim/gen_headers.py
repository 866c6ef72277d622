#!/usr/bin/env python3
"""Generates C++ message, service and dynamic-reconfigure headers for the simulated ROS
from the repository's own .msg/.srv/.cfg files plus the standard message definitions in
sim/msgs.  usage: gen_headers.py REPO OUTDIR"""
import sys, os, re, glob, types
repo, out = sys.argv[1], sys.argv[2]
here = os.path.dirname(os.path.abspath(__file__))
PRIM = {'float64':'double','float32':'float','int8':'int8_t','uint8':'uint8_t','byte':'int8_t','char':'uint8_t',
        'int16':'int16_t','uint16':'uint16_t','int32':'int32_t','uint32':'uint32_t','int64':'int64_t',
        'uint64':'uint64_t','bool':'uint8_t','string':'std::string','time':'ros::Time','duration':'ros::Duration'}

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text: return
    open(path, 'w').write(text)

def parse(text, pkg):
    fields, consts = [], []
    for line in text.splitlines():
        if '"' not in line: line = line.split('#')[0]
        line = line.strip()
        if not line: continue
        m = re.match(r'^(\w+)\s+(\w+)\s*=\s*(.+)$', line)
        if m: consts.append((m.group(1), m.group(2), m.group(3).strip())); continue
        m = re.match(r'^([\w/]+)(\[(\d*)\])?\s+(\w+)$', line)
        if not m: raise SystemExit('cannot parse message line: %r' % line)
        ty, arr, n, name = m.group(1), m.group(2), m.group(3), m.group(4)
        if ty == 'Header': ty = 'std_msgs/Header'
        elif ty not in PRIM and '/' not in ty: ty = pkg + '/' + ty
        fields.append((ty, arr is not None, n, name))
    return fields, consts

def cpptype(ty):
    return PRIM[ty] if ty in PRIM else ty.replace('/', '::')

def struct(name, fields, consts):
    s = 'struct %s {\n' % name
    ini, vis = [], []
    for c in consts:
        s += '  enum { %s = %su };\n' % (c[1], c[2]) if PRIM[c[0]].startswith('uint') else '  enum { %s = %s };\n' % (c[1], c[2])
    for ty, arr, n, fn in fields:
        t = cpptype(ty)
        if arr and n: full = 'boost::array<%s, %s>' % (t, n)
        elif arr: full = 'std::vector<%s>' % t
        else: full = t
        s += '  typedef %s _%s_type; %s %s;\n' % (full, fn, full, fn)
        if arr and n:
            vis.append('for (auto& _e : %s) simros::Visit(_v, _e);' % fn)
            ini.append('%s.assign(%s());' % (fn, t))
        elif arr:
            vis.append('simros::VisitVec(_v, %s);' % fn)
        else:
            vis.append('simros::Visit(_v, %s);' % fn)
            if ty in PRIM and ty not in ('string', 'time', 'duration'): ini.append('%s = 0;' % fn)
    s += '  %s() { %s }\n' % (name, ' '.join(ini))
    s += '  template<class V> void visitFields(V& _v) { %s }\n' % ' '.join(vis)
    s += '  typedef boost::shared_ptr<%s> Ptr;\n  typedef boost::shared_ptr<%s const> ConstPtr;\n' % (name, name)
    s += '};\ntypedef boost::shared_ptr<%s> %sPtr;\ntypedef boost::shared_ptr<%s const> %sConstPtr;\n' % (name, name, name, name)
    return s

def includes(fields):
    inc = sorted(set(t for t, _, _, _ in fields if t not in PRIM))
    return ''.join('#include <%s.h>\n' % t for t in inc)

def gen_msg(pkg, name, text):
    f, c = parse(text, pkg)
    g = '%s_%s_SIM_H' % (pkg.upper(), name.upper())
    write(os.path.join(out, pkg, name + '.h'),
          '#ifndef %s\n#define %s\n#include <simros/msg_support.h>\n%snamespace %s {\n%s}\n'
          'namespace simros { template<> struct TypeName<%s::%s> { static const char* get() { return "%s/%s"; } }; }\n#endif\n'
          % (g, g, includes(f), pkg, struct(name, f, c), pkg, name, pkg, name))

def gen_srv(pkg, name, text):
    a, b = (text.split('---') + [''])[:2]
    fa, ca = parse(a, pkg); fb, cb = parse(b, pkg)
    g = '%s_%s_SIM_H' % (pkg.upper(), name.upper())
    body = struct(name + 'Request', fa, ca) + struct(name + 'Response', fb, cb)
    body += 'struct %s { typedef %sRequest Request; typedef %sResponse Response; Request request; Response response; };\n' % (name, name, name)
    write(os.path.join(out, pkg, name + '.h'),
          '#ifndef %s\n#define %s\n#include <simros/msg_support.h>\n%snamespace %s {\n%s}\n#endif\n'
          % (g, g, includes(fa + fb), pkg, body))

# ---- messages
for f in glob.glob(os.path.join(here, 'msgs', '*', '*.msg')):
    gen_msg(os.path.basename(os.path.dirname(f)), os.path.basename(f)[:-4], open(f).read())
for pkgdir in ('sensor_fusion_comm',):
    for f in glob.glob(os.path.join(repo, pkgdir, 'msg', '*.msg')):
        gen_msg(pkgdir, os.path.basename(f)[:-4], open(f).read())
    for f in glob.glob(os.path.join(repo, pkgdir, 'srv', '*.srv')):
        gen_srv(pkgdir, os.path.basename(f)[:-4], open(f).read())

# ---- dynamic reconfigure
class Gen:
    def __init__(self): self.params = []; self.consts = {}
    def const(self, name, type, value, descr=''):
        d = {'name': name, 'type': type, 'value': value, 'description': descr}; self.consts[name] = d; return d
    def enum(self, constants, description): return ''
    def add(self, name, paramtype, level, description, default=None, min=None, max=None, edit_method=''):
        self.params.append((name, paramtype, level, description, default, min, max))
    def add_group(self, name, type="", state=True): return self
    def generate(self, pkg, node, name): CUR.append((pkg, name, self)); return 0
CUR = []
CT = {'int': 'int', 'double': 'double', 'bool': 'bool', 'str': 'std::string'}
def lit(ty, v):
    if v is None: v = {'int': 0, 'double': 0.0, 'bool': False, 'str': ''}[ty]
    if ty == 'bool': return 'true' if v else 'false'
    if ty == 'double':
        v = float(v)
        if v in (float('inf'), float('-inf')): return ('-' if v < 0 else '') + 'std::numeric_limits<double>::infinity()'
        return repr(v)
    if ty == 'str': return '"%s"' % v
    return str(int(v))
def gen_cfg(path):
    fake = types.ModuleType('dynamic_reconfigure.parameter_generator_catkin')
    fake.ParameterGenerator = Gen
    fake.int_t, fake.double_t, fake.bool_t, fake.str_t = 'int', 'double', 'bool', 'str'
    fake.gen = None
    dr = types.ModuleType('dynamic_reconfigure'); rl = types.ModuleType('roslib'); rl.load_manifest = lambda p: None
    sys.modules.update({'dynamic_reconfigure': dr, 'dynamic_reconfigure.parameter_generator_catkin': fake,
                        'dynamic_reconfigure.parameter_generator': fake, 'roslib': rl})
    CUR.clear()
    src = open(path).read()
    try: exec(compile(src, path, 'exec'), {'__name__': '__main__'})
    except SystemExit: pass
    for pkg, name, g in CUR:
        cls = name + 'Config'
        s = '#ifndef %s_%s_SIM_H\n#define %s_%s_SIM_H\n#include <string>\n#include <limits>\n#include <stdint.h>\nnamespace %s {\nenum { ' % (pkg.upper(), cls.upper(), pkg.upper(), cls.upper(), pkg)
        s += ', '.join('%s_%s = %s' % (name, k, lit('int', c['value'])) for k, c in g.consts.items() if c['type'] in ('int', 'bool'))
        s += ' };\nclass %s {\n public:\n' % cls
        for n, t, l, d, df, mn, mx in g.params: s += '  %s %s;\n' % (CT[t], n)
        s += '  %s() { %s }\n' % (cls, ' '.join('%s = %s;' % (n, lit(t, df)) for n, t, l, d, df, mn, mx in g.params))
        s += '  static const %s& __getDefault__() { static %s d; return d; }\n' % (cls, cls)
        s += '  template<class V> void __visit__(V& v) {\n' + ''.join('    v("%s", %s);\n' % (n, n) for n, *_ in g.params) + '  }\n'
        s += '  void __clamp__() {\n'
        for n, t, l, d, df, mn, mx in g.params:
            if t in ('int', 'double'):
                if mn is not None: s += '    if (%s < %s) %s = %s;\n' % (n, lit(t, mn), n, lit(t, mn))
                if mx is not None: s += '    if (%s > %s) %s = %s;\n' % (n, lit(t, mx), n, lit(t, mx))
        s += '  }\n  uint32_t __level__(const %s& o) const {\n    uint32_t l = 0;\n' % cls
        for n, t, lv, d, df, mn, mx in g.params: s += '    if (%s != o.%s) l |= %su;\n' % (n, n, int(lv))
        s += '    return l;\n  }\n};\n}\n#endif\n'
        write(os.path.join(out, pkg, cls + '.h'), s)
for d in ('msf_core', 'msf_updates', 'msf_distort'):
    for f in sorted(glob.glob(os.path.join(repo, d, 'cfg', '*.cfg'))): gen_cfg(f)
