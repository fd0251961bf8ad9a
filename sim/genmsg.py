#!/usr/bin/env python3
"""Turns ROS .msg/.srv definitions into plain C++ structs (the part of roscpp's generated code SERPENT uses)."""
import os, re, sys
OUT = sys.argv[1]; ROOTS = sys.argv[2:]  # each root: <pkg dir containing msg/ and srv/>
PRIM = {'bool': 'uint8_t', 'int8': 'int8_t', 'uint8': 'uint8_t', 'byte': 'int8_t', 'char': 'uint8_t', 'int16': 'int16_t', 'uint16': 'uint16_t',
        'int32': 'int32_t', 'uint32': 'uint32_t', 'int64': 'int64_t', 'uint64': 'uint64_t', 'float32': 'float', 'float64': 'double',
        'string': 'std::string', 'time': 'ros::Time', 'duration': 'ros::Duration'}
def parse(text, pkg):
    fields, consts = [], []
    for line in text.splitlines():
        line = line.split('#')[0].strip()
        if not line: continue
        m = re.match(r'^([\w/]+)(\[(\d*)\])?\s+(\w+)\s*(=\s*(.+))?$', line)
        assert m, line
        t, arr, n, name, _, val = m.groups()
        if val is not None: consts.append((PRIM[t], name, val.strip())); continue
        dep = None
        if t in PRIM: c = PRIM[t]
        elif t == 'Header': c = 'std_msgs::Header'; dep = 'std_msgs/Header'
        else:
            if '/' not in t: t = pkg + '/' + t
            c = t.replace('/', '::'); dep = t
        base = c
        if arr is not None: c = 'boost::array<%s, %s>' % (base, n) if n else 'std::vector<%s>' % base
        fields.append((c, name, dep, base, arr is not None, n, t in PRIM))
    return fields, consts
def struct(name, fields, consts, ind=''):
    o = [ind + 'struct %s {' % name]
    inits = []
    for c, n, d, b, arr, k, prim in fields:
        if arr and k and prim: inits.append('%s.assign(%s());' % (n, b) if b != 'std::string' else '')
        elif not arr and prim and b not in ('std::string', 'ros::Time', 'ros::Duration'): inits.append('%s = 0;' % n)
    o.append(ind + '  %s() { %s }' % (name, ' '.join(i for i in inits if i)))
    for c, n, *_ in fields: o.append(ind + '  %s %s;' % (c, n))
    for c, n, v in consts: o.append(ind + '  enum { %s = %s };' % (n, v))
    o.append(ind + '  typedef boost::shared_ptr<%s> Ptr; typedef boost::shared_ptr<%s const> ConstPtr;' % (name, name))
    o.append(ind + '};')
    return '\n'.join(o)
def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text: return
    open(path, 'w').write(text)
HEAD = '#pragma once\n#include <ros/time.h>\n#include <boost/array.hpp>\n#include <boost/shared_ptr.hpp>\n#include <boost/make_shared.hpp>\n#include <string>\n#include <vector>\n'
for root in ROOTS:
    pkg = os.path.basename(root.rstrip('/'))
    for kind in ('msg', 'srv'):
        d = os.path.join(root, kind)
        if not os.path.isdir(d): continue
        for f in sorted(os.listdir(d)):
            if not f.endswith('.' + kind): continue
            name = f[:-4]; text = open(os.path.join(d, f)).read()
            parts = text.split('\n---') if kind == 'srv' else [text]
            if kind == 'srv' and text.startswith('---'): parts = ['', text[3:]]
            parsed = [parse(x, pkg) for x in parts]
            deps = sorted({x[2] for p in parsed for x in p[0] if x[2]})
            o = HEAD + ''.join('#include <%s.h>\n' % d for d in deps) + 'namespace %s {\n' % pkg
            if kind == 'msg':
                o += struct(name, *parsed[0]) + '\n'
                o += 'typedef boost::shared_ptr<%s> %sPtr; typedef boost::shared_ptr<%s const> %sConstPtr;\n' % ((name,) * 4)
            else:
                o += 'struct %s {\n%s\n%s\nRequest request; Response response;\n};\n' % (name, struct('Request', *parsed[0], ind='  '), struct('Response', *parsed[1], ind='  '))
            o += '}\n'
            write(os.path.join(OUT, pkg, name + '.h'), o)
