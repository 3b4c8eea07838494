#!/usr/bin/env python3
"""Development-time only: derive the initial reference table (model/model.json) from
the documentation-like XML specs and the public enum declarations of the *base* tree.
The generated file is committed; no check ever regenerates it, so a later change of the
tree does not change the oracle."""
import json, re, sys, xml.etree.ElementTree as ET
R = sys.argv[1] if len(sys.argv) > 1 else '/repo'
def tag(e): return e.tag.split('}')[-1]
def fields(e):
    out = []
    for f in e:
        t = tag(f)
        if t not in ('Field', 'Pointer'): continue
        a = f.attrib
        codes = [int(c) for c in a.get('CodeOverrides', a['Code']).split(',')]
        d = dict(name=('__%s_handle' % a['Name']) if t == 'Pointer' else a['Name'],
                 type='Handle' if t == 'Pointer' else a.get('Type'), codes=codes,
                 multi=a.get('AllowMultiples') == 'true', ptr=t == 'Pointer',
                 min=a.get('MinVersion', ''), max=a.get('MaxVersion', ''),
                 nodef=a.get('DisableWritingDefault') == 'true' or a.get('DontWriteDefault') == 'true',
                 rc=a.get('ReadConverter', ''), wc=a.get('WriteConverter', ''), wcond=a.get('WriteCondition', ''),
                 r=a.get('GenerateReader') != 'false', w=a.get('GenerateWriter') != 'false', default=a.get('DefaultValue', ''))
        fl = {x.attrib['Name']: int(x.attrib['Mask'], 0) for x in f if tag(x) == 'Flag'}
        if fl: d['flags'] = fl
        if t == 'Pointer':
            d['ptype'] = a.get('Type', ''); d['psub'] = a.get('SubType', '')
        out.append(d)
    return out
def types(path):
    out = []
    for e in ET.parse(path).getroot():
        a = e.attrib
        d = dict(name=a['Name'], types=[x for x in a.get('TypeString', '').split(',') if x], min=a.get('MinVersion', ''),
                 max=a.get('MaxVersion', ''), base=a.get('BaseClass', ''), fields=fields(e))
        for wo in e:
            if tag(wo) == 'WriteOrder':
                d['order'] = [[tag(x), dict(x.attrib)] for x in wo.iter() if tag(x) != 'WriteOrder']
        out.append(d)
    return out
m = dict(entities=types(R + '/spec/EntitiesSpec.xml'), objects=types(R + '/spec/ObjectsSpec.xml'))
tabs = []
for t in ET.parse(R + '/spec/TableSpec.xml').getroot():
    it = list(t)[0]
    tabs.append(dict(collection=t.attrib['Collection'], type=t.attrib['TypeString'], min=t.attrib.get('MinVersion', ''),
                     name=it.attrib['Name'], cls=it.attrib['ClassName'], fields=fields(it)))
m['tables'] = tabs
hv = []
for v in ET.parse(R + '/spec/HeaderVariablesSpec.xml').getroot():
    a = v.attrib
    fl = {x.attrib['Name']: int(x.attrib['Mask'], 0) for x in v if tag(x) == 'Flag'}
    d = dict(var='$' + a['Name'], code=int(a['Code']), type=a['Type'], name=a['Field'], min=a.get('MinVersion', ''), max=a.get('MaxVersion', ''),
             nodef=a.get('DontWriteDefault') == 'true', rc=a.get('ReadConverter', ''), wc=a.get('WriteConverter', ''),
             ro=a.get('ReaderOverride', ''), suppress=a.get('SuppressWriting') == 'true', default=a.get('DefaultValue', ''))
    if fl: d['flags'] = fl
    hv.append(d)
m['header'] = hv
enums = {}
src = open(R + '/src/enums.rs').read()
for mm in re.finditer(r'pub enum (\w+)\s*\{(.*?)\n\}', src, re.S):
    n = 0; vs = []
    for line in mm.group(2).split('\n'):
        line = re.sub(r'//.*', '', line).strip().rstrip(',')
        if not line or line.startswith('#') or line.startswith('/'): continue
        if '=' in line:
            nm, val = line.split('='); n = int(val.strip(), 0); nm = nm.strip()
        else: nm = line
        vs.append([nm, n]); n += 1
    enums[mm.group(1)] = vs
m['enums'] = enums
json.dump(m, sys.stdout, indent=1)
