#!/usr/bin/env python3
"""Generates src/registry.rs from the public signatures of /repo (run once; the output is committed)."""
import re, os
SRC = '/repo/src/physics/single_chain'
out = ['// Generated by gen_registry.py from the public signatures of the library.',
       '#![allow(clippy::all)]', 'use crate::env::Env;', 'use crate::{Fun, Module};', 'use polymers::physics::single_chain as sc;', '']
mods = []
def clean(s):
    return re.sub(r'^\s*///.*\n', '', s, flags=re.M)
inits = {}
for r, ds, fs in sorted(os.walk(SRC)):
    ds.sort()
    if 'mod.rs' not in fs: continue
    rel = os.path.relpath(r, SRC)
    if rel == '.': continue
    s = clean(open(r + '/mod.rs').read())
    m = re.search(r'\bimpl (\w+)', s)
    if not m: continue
    struct = m.group(1)
    head, imp = s[:m.start()], s[m.start():]
    init = re.search(r'pub fn init\(([^)]*)\)', imp)
    iargs = [a.split(':')[0].strip() for a in init.group(1).split(',')]
    inits[rel] = (struct, iargs)
    fields = re.findall(r'^\s*pub (\w+): (f64|u8)', head, re.M)
    free = re.findall(r'^pub fn (\w+)\(([^)]*)\)', head, re.M)
    meth = dict(re.findall(r'^\s+pub fn (\w+)\(&self,? ?([^)]*)\)', imp, re.M))
    ext = {}
    if 'ex.rs' in fs:
        e = clean(open(r + '/ex.rs').read())
        pre = 'physics_single_chain_' + rel.replace('/', '_') + '_'
        for n, a in re.findall(r'pub (?:unsafe )?extern (?:"C" )?fn (\w+)\(([^)]*)\)', e):
            assert n.startswith(pre), (n, pre)
            ext[n[len(pre):]] = (n, a)
    mods.append((rel, struct, iargs, fields, free, meth, ext))
def topof(rel):
    p = rel.split('/')
    return next('/'.join(p[:i]) for i in range(1, len(p) + 1) if '/'.join(p[:i]) in inits)
def names(a):
    return [x.split(':')[0].strip() for x in a.split(',') if x.strip()]
allnames = set()
tbl = []
for rel, struct, iargs, fields, free, meth, ext in mods:
    if not free and not meth: continue
    path = 'sc::' + rel.replace('/', '::')
    ident = rel.replace('/', '_')
    top = topof(rel)
    tstruct, targs = inits[top]
    fpath = ''.join('.' + x for x in rel[len(top):].split('/')[1:])
    ia = ', '.join('e.' + a for a in iargs)
    ta = ', '.join('e.' + a for a in targs)
    funs = []
    for n, a in free:
        an = names(a); allnames.update(an)
        call = f"{path}::{n}({', '.join('&e.' + x for x in an)})"
        ex = 'None'
        if n in ext:
            en, ea = ext[n]
            ex = f"Some(|e| {path}::ex::{en}({', '.join('e.' + x for x in names(ea))}))"
        funs.append(f'        Fun {{ name: "{n}", args: &[{", ".join(chr(34)+x+chr(34) for x in an)}], free: |e| {call}, ext: {ex} }},')
    arms = []
    for n, a in meth.items():
        an = names(a); allnames.update(an)
        arms.append(f'        "{n}" => o.{n}({", ".join("&e." + x for x in an)}),')
    for n, t in fields:
        arms.append(f'        "field:{n}" => o.{n} as f64,')
    out.append(f'fn call_{ident}(o: &{path}::{struct}, n: &str, e: &Env) -> Option<f64> {{\n    Some(match n {{\n' + '\n'.join(arms) + '\n        _ => return None,\n    })\n}')
    mn = ', '.join('"%s"' % n for n in meth)
    ms = ', '.join('("%s", &[%s])' % (n, ', '.join('"%s"' % x for x in names(a))) for n, a in meth.items())
    tbl.append(f'    Module {{ path: "{rel}", init_args: &[{", ".join(chr(34)+x+chr(34) for x in iargs)}], fields: &[{", ".join(chr(34)+n+chr(34) for n, t in fields)}], methods: &[{ms}],\n'
               f'      leaf: |e| {{ let o = {path}::{struct}::init({ia}); Box::new(move |n, e| call_{ident}(&o, n, e)) }},\n'
               f'      deep: |e| {{ let o = sc::{top.replace('/', '::')}::{tstruct}::init({ta}); Box::new(move |n, e| call_{ident}(&o{fpath}, n, e)) }},\n'
               f'      funs: &[\n' + '\n'.join(funs) + '\n      ] },')
# every structure of the hierarchy (parameters reach each of them)
lv = []
for rel, struct, iargs, fields, free, meth, ext in mods:
    top = topof(rel)
    tstruct, targs = inits[top]
    fpath = ''.join('.' + x for x in rel[len(top):].split('/')[1:])
    lv.append(f'    ("{rel}", |e| {{ let o = sc::{top.replace('/', '::')}::{tstruct}::init({", ".join("e." + a for a in targs)}); vec![{", ".join(f"({chr(34)}{n}{chr(34)}, o{fpath}.{n} as f64)" for n, t in fields)}] }}),')
    allnames.update(iargs)
out.append('pub static MODULES: &[Module] = &[\n' + '\n'.join(tbl) + '\n];')
out.append('pub static LEVELS: &[(&str, fn(&Env) -> Vec<(&\'static str, f64)>)] = &[\n' + '\n'.join(lv) + '\n];')
open('src/registry.rs', 'w').write('\n'.join(out) + '\n')
allnames.discard('number_of_links')
env = ['// Generated by gen_registry.py.', '/// The arguments that the functions of the library take, by name.', '#[derive(Clone, Debug, Default)]', 'pub struct Env {', '    pub number_of_links: u8,'] + [f'    pub {n}: f64,' for n in sorted(allnames)] + ['}', 'impl Env {', '    pub fn get(&self, n: &str) -> f64 {', '        match n {', '            "number_of_links" => self.number_of_links as f64,'] + [f'            "{n}" => self.{n},' for n in sorted(allnames)] + ['            _ => panic!("no argument {}", n),', '        }', '    }', '    pub fn set(&mut self, n: &str, v: f64) {', '        match n {', '            "number_of_links" => self.number_of_links = v as u8,'] + [f'            "{n}" => self.{n} = v,' for n in sorted(allnames)] + ['            _ => panic!("no argument {}", n),', '        }', '    }', '}']
open('src/env.rs', 'w').write('\n'.join(env) + '\n')
print(len(mods), 'structures', len(tbl), 'modules', sum(len(m[4]) for m in mods), 'functions', sum(len(m[5]) for m in mods), 'methods', sum(len(m[6]) for m in mods), 'C entry points'); print(sorted(allnames))
