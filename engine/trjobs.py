"""P35: translate.py, by partial evaluation of its syntax tree.

The script is interpreted with every command-line option an opaque token, so
what reaches which parameter is a def-use question; calls of anything outside
the script are recorded, never made.  Text the script rewrites is a set of
representative lines (one per class of line)."""

import ast
import inspect
import os
import re

from jobs import register
from netlist import AnalysisError
from unitjobs import Out


class Tok:
  """an option value"""
  def __init__(self, name): self.name = name
  def __repr__(self): return f'<{self.name}>'


class Txt:
  """text with options in it"""
  def __init__(self, parts):
    self.parts = []
    for p in parts:
      for q in (p.parts if isinstance(p, Txt) else [p]):
        if q == '': continue
        if self.parts and isinstance(q, str) and isinstance(self.parts[-1], str): self.parts[-1] += q
        else: self.parts.append(q)

  def key(self): return tuple(p if isinstance(p, str) else ('opt', p.name) for p in self.parts)
  def __eq__(self, o): return isinstance(o, Txt) and self.key() == o.key()
  def __hash__(self): return hash(self.key())
  def __repr__(self): return ''.join(p if isinstance(p, str) else repr(p) for p in self.parts)


def text(parts):
  parts = [p if isinstance(p, (str, Tok, Txt)) else str(p) for p in parts]
  t = Txt(parts)
  return ''.join(t.parts) if all(isinstance(p, str) for p in t.parts) else t


class Ext:
  """something outside the script, by dotted name"""
  def __init__(self, name): self.name = name
  def __repr__(self): return self.name


class Res:
  """result of an outside call; item k of a tuple result"""
  def __init__(self, ev, k=None): self.ev, self.k = ev, k
  def __repr__(self): return f'{self.ev.name}(..)' + (f'[{self.k}]' if self.k is not None else '')


class Event:
  def __init__(self, name, recv, args, kw, line): self.name, self.recv, self.args, self.kw, self.line = name, recv, args, kw, line


class Bound:
  def __init__(self, recv, name): self.recv, self.name = recv, name


class Opts:
  def __init__(self, decl): self.decl, self.set = decl, {}


class File:
  def __init__(self, name, mode): self.name, self.mode, self.out, self.closed = name, mode, [], False


class FnV:
  def __init__(self, node, env): self.node, self.env = node, env


class Ret(Exception): pass
class Brk(Exception): pass
class Cnt(Exception): pass
class Stop(Exception): pass


PURE = ('re', 'string', 'math', 'itertools', 'functools', 'operator')


class Script:

  def __init__(self, src, path, flags):
    self.tree = ast.parse(src)
    self.path = path
    self.flags = flags              # concrete boolean options
    self.files = {}
    self.log = []
    self.glob = {'__name__': '__main__', '__file__': path}
    self.steps = 0
    self.redirect = None            # file that print goes to (fileinput in place)
    self.fi = None
    self.opened = []

  def err(self, n, m): raise AnalysisError(f"blocking_cache/translate.py:{getattr(n, 'lineno', '?')}: {m}")

  # ---- statements --------------------------------------------------------
  def body(self, sts, env):
    for st in sts: self.stmt(st, env)

  def stmt(self, st, env):
    self.steps += 1
    if self.steps > 200000: self.err(st, 'too many steps')
    t = type(st)
    if t is ast.Expr: self.ev(st.value, env)
    elif t is ast.Assign:
      v = self.ev(st.value, env)
      for tg in st.targets: self.bind(tg, v, env)
    elif t is ast.AnnAssign:
      if st.value is not None: self.bind(st.target, self.ev(st.value, env), env)
    elif t is ast.AugAssign:
      cur = self.ev(ast.copy_location(ast.parse(ast.unparse(st.target), mode='eval').body, st), env)
      self.bind(st.target, self.bin(st.op, cur, self.ev(st.value, env), st), env)
    elif t is ast.If: self.body(st.body if self.truth(self.ev(st.test, env), st) else st.orelse, env)
    elif t is ast.For:
      broke = False
      for x in self.iter(self.ev(st.iter, env), st):
        self.bind(st.target, x, env)
        try: self.body(st.body, env)
        except Brk:
          broke = True
          break
        except Cnt: pass
      if not broke: self.body(st.orelse, env)
    elif t is ast.While:
      while self.truth(self.ev(st.test, env), st):
        try: self.body(st.body, env)
        except Brk: break
        except Cnt: pass
    elif t is ast.With:
      opened = []
      for it in st.items:
        v = self.ev(it.context_expr, env)
        opened.append(v)
        if it.optional_vars is not None: self.bind(it.optional_vars, v, env)
      self.body(st.body, env)
      for v in opened: self.close(v)
    elif t is ast.Try:
      try:
        self.body(st.body, env)
        self.body(st.orelse, env)
      finally:
        self.body(st.finalbody, env)
    elif t is ast.Return:
      r = Ret()
      r.v = self.ev(st.value, env) if st.value is not None else None
      raise r
    elif t is ast.Break: raise Brk()
    elif t is ast.Continue: raise Cnt()
    elif t is ast.FunctionDef: env[0][st.name] = FnV(st, env)
    elif t in (ast.Import, ast.ImportFrom):
      for a in st.names:
        full = a.name if t is ast.Import else f'{st.module}.{a.name}'
        env[0][a.asname or (a.name.split('.')[0] if t is ast.Import else a.name)] = Ext(full if (a.asname or t is ast.ImportFrom) else a.name.split('.')[0])
    elif t is ast.Raise: raise Stop()
    elif t in (ast.Pass, ast.Assert, ast.Global, ast.Nonlocal, ast.Delete, ast.ClassDef): pass
    else: self.err(st, f'statement {t.__name__}')

  def bind(self, tg, v, env):
    if isinstance(tg, ast.Name): env[0][tg.id] = v
    elif isinstance(tg, (ast.Tuple, ast.List)):
      vs = [Res(v.ev, k) for k in range(len(tg.elts))] if isinstance(v, Res) and v.k is None else list(self.iter(v, tg))
      if len(vs) != len(tg.elts): self.err(tg, 'unpacking')
      for a, b in zip(tg.elts, vs): self.bind(a, b, env)
    elif isinstance(tg, ast.Subscript): self.ev(tg.value, env)[self.ev(tg.slice, env)] = v
    elif isinstance(tg, ast.Attribute):
      o = self.ev(tg.value, env)
      if isinstance(o, Opts): o.set[tg.attr] = v
      elif isinstance(o, (Res, Ext)): self.log.append(Event('setattr ' + tg.attr, o, [v], {}, tg.lineno))
      else: self.err(tg, 'attribute assignment')
    else: self.err(tg, 'target')

  def truth(self, v, n):
    if isinstance(v, (Tok, Txt)): self.err(n, f'a branch on the option {v!r}')
    if isinstance(v, (Res, Ext)): return True
    return bool(v)

  def iter(self, v, n):
    if isinstance(v, File):
      self.fi = v if v.mode == 'inplace' else self.fi
      return self.lines(v)
    if isinstance(v, (list, tuple, str, dict, set, range)) or hasattr(v, '__iter__') and not isinstance(v, (Res, Ext, Tok, Txt)): return v
    self.err(n, f'iteration over {v!r}')

  # ---- files -------------------------------------------------------------
  def lines(self, f):
    return self.files.get(f.name, {}).get('text', '').splitlines(True)

  def write(self, f, s):
    if not isinstance(s, str): raise AnalysisError(f'{f.name!r} is written {s!r}')
    f.out.append(s)

  def close(self, v):
    if isinstance(v, File) and not v.closed:
      v.closed = True
      if v.mode != 'r':
        d = self.files.setdefault(v.name, {})
        d['text'] = (d.get('text', '') if v.mode == 'a' else '') + ''.join(v.out)
        self.log.append(Event('rewrite', None, [v.name, v.mode], {}, 0))
      if self.fi is v: self.fi = None

  def shell(self, cmd, out, n):
    """cat of files into a file"""
    t = repr(cmd).strip('"\'') if isinstance(cmd, Txt) else cmd
    m = re.fullmatch(r"\s*cat\s+(\S+(?:\s+[^\s>]+)*)\s*(?:(>>?)\s*(\S+))?\s*", t)
    if not m: raise AnalysisError(f"blocking_cache/translate.py:{n.lineno}: command {t}")
    byname = {repr(k).strip("'"): k for k in self.files}
    def data(p):
      k = byname.get(p.strip('"\''), p.strip('"\''))
      return self.files.get(k, {}).get('text', '')
    txt = ''.join(data(p) for p in m[1].split())
    if m[3]:
      k = m[3].strip('"\'')
      d = self.files.setdefault(byname.get(k, k), {})
      d['text'] = (d.get('text', '') if m[2] == '>>' else '') + txt
    elif isinstance(out, File): self.write(out, txt)
    return txt

  # ---- expressions -------------------------------------------------------
  def name(self, id, env, n):
    for d in env:
      if id in d: return d[id]
    if id in ('print', 'open'): return Ext(id)
    import builtins
    if hasattr(builtins, id): return getattr(builtins, id)
    self.err(n, f'name {id}')

  def ev(self, n, env):
    t = type(n)
    if t is ast.Constant: return n.value
    if t is ast.Name: return self.name(n.id, env, n)
    if t is ast.JoinedStr:
      return text([x.value if isinstance(x, ast.Constant) else self.fmt(x, env) for x in n.values])
    if t is ast.Attribute: return self.attr(self.ev(n.value, env), n.attr, n)
    if t is ast.Call: return self.call(n, env)
    if t is ast.BinOp: return self.bin(n.op, self.ev(n.left, env), self.ev(n.right, env), n)
    if t is ast.UnaryOp:
      v = self.ev(n.operand, env)
      return not self.truth(v, n) if isinstance(n.op, ast.Not) else -v
    if t is ast.BoolOp:
      for x in n.values:
        v = self.ev(x, env)
        if self.truth(v, n) != isinstance(n.op, ast.And): return v
      return v
    if t is ast.Compare:
      l = self.ev(n.left, env)
      for op, r in zip(n.ops, n.comparators):
        r = self.ev(r, env)
        if any(isinstance(v, (Tok, Txt)) for v in (l, r)) and not isinstance(op, (ast.Is, ast.IsNot)): self.err(n, f'a test of an option ({l!r}, {r!r})')
        from absint import _PYCMP
        ok = (l in r) if isinstance(op, ast.In) else (l not in r) if isinstance(op, ast.NotIn) else (l is r) if isinstance(op, ast.Is) else \
             (l is not r) if isinstance(op, ast.IsNot) else _PYCMP[type(op)](l, r)
        if not ok: return False
        l = r
      return True
    if t is ast.IfExp: return self.ev(n.body if self.truth(self.ev(n.test, env), n) else n.orelse, env)
    if t in (ast.Tuple, ast.List):
      out = []
      for x in n.elts:
        if isinstance(x, ast.Starred): out += list(self.iter(self.ev(x.value, env), n))
        else: out.append(self.ev(x, env))
      return tuple(out) if t is ast.Tuple else out
    if t is ast.Dict: return {self.ev(k, env): self.ev(v, env) for k, v in zip(n.keys, n.values)}
    if t is ast.Set: return {self.ev(x, env) for x in n.elts}
    if t is ast.Subscript:
      b = self.ev(n.value, env)
      i = slice(*[self.ev(x, env) if x is not None else None for x in (n.slice.lower, n.slice.upper, n.slice.step)]) if isinstance(n.slice, ast.Slice) else self.ev(n.slice, env)
      if isinstance(b, Res) and isinstance(i, int) and b.k is None: return Res(b.ev, i)
      if isinstance(b, (Res, Ext)): return Res(Event('item', b, [i], {}, n.lineno))
      return b[i]
    if t is ast.Lambda: return FnV(n, env)
    if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp):
      out = []
      def rec(k, e):
        if k == len(n.generators):
          out.append((self.ev(n.key, e), self.ev(n.value, e)) if t is ast.DictComp else self.ev(n.elt, e))
          return
        g = n.generators[k]
        for x in self.iter(self.ev(g.iter, e), n):
          e2 = [dict()] + e
          self.bind(g.target, x, e2)
          if all(self.truth(self.ev(c, e2), n) for c in g.ifs): rec(k + 1, e2)
      rec(0, [dict()] + env)
      return dict(out) if t is ast.DictComp else set(out) if t is ast.SetComp else out
    if t is ast.NamedExpr:
      v = self.ev(n.value, env)
      self.bind(n.target, v, env)
      return v
    self.err(n, f'expression {t.__name__}')

  def fmt(self, x, env):
    v = self.ev(x.value, env)
    if x.format_spec is not None and not isinstance(v, (Tok, Txt, Res, Ext)):
      return format(v, self.ev(x.format_spec, env))
    return v

  def bin(self, op, a, b, n):
    from absint import _PYOP
    if isinstance(op, ast.Add) and any(isinstance(v, (Tok, Txt)) for v in (a, b)) and any(isinstance(v, (str, Txt)) for v in (a, b)): return text([a, b])
    if isinstance(op, ast.Mod) and isinstance(a, str):
      b = b if isinstance(b, tuple) else (b,)
      parts = re.split(r'%[ds]', a)
      if len(parts) == len(b) + 1: return text([y for p, q in zip(parts, b + ('',)) for y in (p, q)])
    if isinstance(a, Tok) or isinstance(b, Tok): return Tok(f'{a!r} {type(op).__name__} {b!r}')
    if isinstance(op, ast.Div) and isinstance(a, (Res, Ext)): return Res(Event('path', a, [b], {}, n.lineno))
    if type(op) in _PYOP: return _PYOP[type(op)](a, b)
    self.err(n, 'operator')

  def attr(self, o, name, n):
    if isinstance(o, Opts):
      if name in o.set: return o.set[name]
      if name in o.decl: return o.decl[name]
      raise Bad('option', f'option {name} is read but the command line never declares it', n)
    if isinstance(o, Ext): return Ext(f'{o.name}.{name}')
    return Bound(o, name)

  def call(self, n, env):
    f = self.ev(n.func, env)
    args, kw = [], {}
    for a in n.args:
      if isinstance(a, ast.Starred): args += list(self.iter(self.ev(a.value, env), n))
      else: args.append(self.ev(a, env))
    for k in n.keywords:
      if k.arg is None: kw.update(self.ev(k.value, env))
      else: kw[k.arg] = self.ev(k.value, env)
    return self.apply(f, args, kw, n)

  def apply(self, f, args, kw, n):
    if isinstance(f, FnV):
      a = f.node.args
      loc = {}
      names = [x.arg for x in a.posonlyargs + a.args]
      for x, v in zip(names, args): loc[x] = v
      if a.vararg: loc[a.vararg.arg] = tuple(args[len(names):])
      for k, v in kw.items(): loc[k] = v
      for x, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        if x not in loc: loc[x] = self.ev(d, f.env)
      for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg not in loc and d is not None: loc[x.arg] = self.ev(d, f.env)
      env = [loc] + f.env
      if isinstance(f.node, ast.Lambda): return self.ev(f.node.body, env)
      try: self.body(f.node.body, env)
      except Ret as r: return r.v
      return None
    if isinstance(f, Bound): return self.method(f.recv, f.name, args, kw, n)
    if isinstance(f, Ext): return self.ext(f.name, args, kw, n)
    if f in (str, format): return text([args[0]])
    if f is int and isinstance(args[0], Tok): return args[0]
    if callable(f) and f.__name__ in ('len', 'range', 'zip', 'enumerate', 'list', 'tuple', 'dict', 'set', 'int', 'sorted', 'reversed', 'map', 'any', 'all', 'repr', 'bool', 'min', 'max', 'sum', 'isinstance', 'iter', 'next', 'filter'):
      conv = [(lambda *a, g=x: self.apply(g, list(a), {}, n)) if isinstance(x, FnV) else self.lines(x) if isinstance(x, File) else x for x in args]
      if any(isinstance(x, (Tok, Txt)) for x in conv): self.err(n, f'{f.__name__} of an option')
      r = f(*conv, **kw)
      return list(r) if f.__name__ in ('zip', 'enumerate', 'map', 'reversed', 'filter') else r
    self.err(n, f'call of {f!r}')

  def method(self, o, name, args, kw, n):
    if isinstance(o, File):
      if name in ('read',): return ''.join(self.lines(o))
      if name in ('readlines', '__iter__'): return self.lines(o)
      if name == 'write': return self.write(o, args[0])
      if name == 'writelines':
        for x in self.iter(args[0], n): self.write(o, x)
        return None
      if name == 'close': return self.close(o)
      return None
    if isinstance(o, (Res, Ext)):
      e = Event(name, o, args, kw, n.lineno)
      self.log.append(e)
      if isinstance(o, Res) and o.ev.name.endswith('ArgumentParser'):
        if name == 'add_argument': self.declare(o.ev, args, kw, n)
        if name in ('parse_args', 'parse_known_args'): return Opts(o.ev.__dict__.setdefault('decl', {}))
        if name == 'add_argument_group' or name == 'add_mutually_exclusive_group': return o
      if isinstance(o, Res) and o.ev.name in ('path', 'pathlib.Path') and name in ('read_text', 'open'):
        return File(o, 'r')
      return Res(e)
    if isinstance(o, (Tok, Txt)):
      if name == 'format': self.err(n, 'format')
      return Res(Event(name, o, args, kw, n.lineno))
    if isinstance(o, str) and name == 'format':
      parts, k = [], 0
      import string
      for lit, fld, spec, _ in string.Formatter().parse(o):
        parts.append(lit)
        if fld is None: continue
        parts.append(args[k] if fld == '' else args[int(fld)] if fld.isdigit() else kw[fld])
        k += fld == ''
      return text(parts)
    if isinstance(o, str) and name == 'join':
      xs = list(self.iter(args[0], n))
      return text([y for i, x in enumerate(xs) for y in (([o] if i else []) + [x])])
    if isinstance(o, (str, list, dict, set, tuple)):
      conv = [(lambda *a, g=x: self.apply(g, list(a), {}, n)) if isinstance(x, FnV) else x for x in args]
      r = getattr(o, name)(*conv, **kw)
      return list(r) if name in ('items', 'keys', 'values') else r
    if type(o).__module__ == 're':
      conv = [(lambda *a, g=x: self.apply(g, list(a), {}, n)) if isinstance(x, FnV) else x for x in args]
      return getattr(o, name)(*conv, **kw)
    self.err(n, f'method {name} of {o!r}')

  def declare(self, ev, args, kw, n):
    d = ev.__dict__.setdefault('decl', {})
    flag = next((a for a in args if isinstance(a, str) and a.startswith('--')), args[0] if args else '')
    dest = kw.get('dest') or flag.lstrip('-').replace('-', '_')
    if kw.get('action') in ('store_true', 'store_false'): d[dest] = self.flags.get(flag, False)
    else: d[dest] = Tok(flag)
    self.log.append(Event('option', flag, [dest], kw, n.lineno))

  def ext(self, name, args, kw, n):
    root = name.split('.')[0]
    if name == 'print' or name == 'sys.stdout.write':
      s = text(args[:1]) if len(args) == 1 else ' '.join(map(str, args))
      f = kw.get('file')
      end = kw.get('end', '\n') if name == 'print' else ''
      if isinstance(f, File): self.write(f, s + end)
      elif self.fi is not None: self.write(self.fi, s + end)
      return None
    if name in ('fileinput.input', 'fileinput.FileInput'):
      files = args[0] if args else kw.get('files')
      if isinstance(files, (list, tuple)): files = files[0]
      f = File(files, 'inplace' if kw.get('inplace') else 'r')
      if f.mode == 'inplace': self.log.append(Event('patch', None, [files], {}, n.lineno))
      self.opened.append(f)
      return f
    if name in ('open', 'io.open'):
      mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
      f = File(args[0], 'a' if 'a' in mode else 'w' if 'w' in mode or '+' in mode else 'r')
      self.opened.append(f)
      if f.mode == 'w':
        self.log.append(Event('patch', None, [args[0]], {}, n.lineno))
        self.files.setdefault(f.name, {})['text'] = ''
      return f
    if root in PURE and not any(isinstance(a, (Tok, Txt, Res, Ext)) for a in args):
      import importlib
      m = importlib.import_module(root)
      f = m
      for p in name.split('.')[1:]: f = getattr(f, p)
      if not callable(f): return f
      conv = [(lambda *a, g=x: self.apply(g, list(a), {}, n)) if isinstance(x, FnV) else x for x in args]
      return f(*conv, **kw)
    if name in ('os.path.join',) and all(isinstance(a, (str, Txt, Tok)) for a in args): return text([y for i, a in enumerate(args) for y in ((['/'] if i else []) + [a])])
    if name in ('os.path.abspath', 'os.path.realpath', 'os.path.normpath') and isinstance(args[0], (str, Txt)): return args[0]
    if name == 'os.path.dirname' and isinstance(args[0], str): return os.path.dirname(args[0])
    if name.split('.')[-1] in ('copyfileobj',) and all(isinstance(a, File) for a in args[:2]):
      self.write(args[1], ''.join(self.lines(args[0])))
      return None
    e = Event(name, None, args, kw, n.lineno)
    if name in ('os.system', 'os.popen') or root == 'subprocess' and name.split('.')[-1] in ('Popen', 'run', 'call', 'check_call', 'check_output', 'getoutput'):
      cmd = args[0] if args else kw.get('args')
      if isinstance(cmd, (list, tuple)): cmd = text([y for i, a in enumerate(cmd) for y in (([' '] if i else []) + [a])])
      out = self.shell(cmd, kw.get('stdout'), n)
      if name.endswith(('check_output', 'getoutput')): return out
    self.log.append(e)
    return Res(e)


class Bad(Exception):
  def __init__(self, key, msg, n): self.key, self.msg, self.line = key, msg, getattr(n, 'lineno', 0)


MACROS = [(128, 256), (26, 128), (25, 256), (128, 512)]


def sample():
  """(line, expected: None = unchanged, or (bits, words, before, after))"""
  out = []
  for b, w in MACROS + [(24, 128), (26, 256), (64, 64), (128, 128), (28, 16)]:
    for pre, post in (('  ', '\n'), ('\t', ' (\n'), ('', '_x;\n')):
      line = f'{pre}SramGenericPRTL__num_bits_{b}__num_words_{w} sram{post}'
      out.append((line, (b, w, pre, 'sram' + post)))
    out.append((f'module SramGenericPRTL__num_bits_{b}__num_words_{w}\n', None))
    out.append((f'  SramPRTL__num_bits_{b}__num_words_{w} data_array_M2\n', None))
    out.append((f'// PyMTL Component SramGenericPRTL num_bits_{b}\n', None))
  out += [('endmodule\n', None), ('\n', None), ("    x = 'SramGenericPRTL';\n", None), ('  assign s = sram;\n', None)]
  return out


def rules(out, path):
  from blocking_cache.BlockingCacheRTL import BlockingCacheRTL
  from mem_ifcs.MemMsg import mk_mem_msg
  src = open(path).read()
  need = out.need
  for flag in (False, True):
    S = Script(src, path, {'--replace-sram': flag})
    S.reading = True
    smp = sample()
    body = ''.join(l for l, _ in smp)
    class Files(dict):
      def get(self, k, d=None):
        if k not in self and isinstance(k, Txt): self[k] = {'text': body}
        if k not in self and isinstance(k, str) and k.endswith(WRAP): self[k] = {'text': MARK}
        return dict.get(self, k, d)
      def setdefault(self, k, d=None):
        self.get(k)
        return dict.setdefault(self, k, d)
    S.files = Files()
    try:
      S.body(S.tree.body, [S.glob])
      for f in S.opened: S.close(f)
    except Bad as b:
      need(False, f'tr/{b.key}', f'{path}:{b.line}: {b.msg}')
      return
    except Stop:
      need(False, 'tr/raise', f'{path}: the script raises for every command line')
      return
    where = f'{os.path.basename(path)}, --replace-sram {"given" if flag else "not given"}'
    L = S.log
    duts = [e for e in L if e.name.split('.')[-1] == 'BlockingCacheRTL']
    need(len(duts) == 1, 'tr/one-cache', f'{where}: {len(duts)} caches are built')
    if len(duts) != 1: return
    d = duts[0]
    line = f'{path}:{d.line}'
    try:
      ba = inspect.signature(BlockingCacheRTL.construct).bind(None, *d.args, **d.kw).arguments
    except TypeError as e:
      need(False, 'tr/args', f'{line}: {e}')
      return
    sig = list(inspect.signature(BlockingCacheRTL.construct).parameters)
    def opt(v): return v.name if isinstance(v, Tok) else repr(v)
    need(opt(ba.get(sig[5])) == '--size', 'tr/size', f'{line}: {sig[5]} is {opt(ba.get(sig[5]))}, not --size')
    need(opt(ba.get(sig[6])) == '--asso', 'tr/asso', f'{line}: {sig[6]} is {opt(ba.get(sig[6]))}, not --asso')
    msg = list(inspect.signature(mk_mem_msg).parameters)
    for k, (p, side, what) in enumerate([(sig[1], 'cache', '--dbw'), (sig[2], 'cache', '--dbw'), (sig[3], 'memory', '--clw'), (sig[4], 'memory', '--clw')]):
      v = ba.get(p)
      ok = isinstance(v, Res) and v.ev.name.split('.')[-1] == 'mk_mem_msg' and v.k == k % 2
      need(ok, f'tr/msg-{p}', f'{line}: {p} is not the {"request" if k % 2 == 0 else "response"} type of mk_mem_msg')
      if not ok: continue
      a = inspect.signature(mk_mem_msg).bind(*v.ev.args, **v.ev.kw).arguments
      for par, o in zip(msg[:3], ('--obw', '--abw', what)):
        need(opt(a.get(par)) == o, f'tr/{side}-{par}', f'{path}:{v.ev.line}: {par} of the {side} messages is {opt(a.get(par))}, not {o}')
    mine = [e for e in L if isinstance(e.recv, Res) and e.recv.ev is d]
    order = [e.name for e in mine]
    meta = {}
    for e in mine:
      if e.name == 'set_metadata' and isinstance(e.args[0], Ext): meta[e.args[0].name.split('.')[-1]] = e.args[1]
    need('elaborate' in order and 'apply' in order and order.index('elaborate') < order.index('apply'), 'tr/elaborate', f'{line}: the cache is not elaborated and then translated: {order}')
    ap = [e for e in mine if e.name == 'apply']
    need(any(isinstance(a, Res) and 'VerilogTranslation' in a.ev.name for e in ap for a in e.args), 'tr/pass', f'{line}: no Verilog translation pass is applied')
    need(meta.get('enable') is True, 'tr/enable', f'{line}: translation is not enabled on the cache')
    fname = meta.get('explicit_file_name')
    need(isinstance(fname, Txt) or isinstance(fname, str), 'tr/file', f'{line}: no file name for the translation')
    if isinstance(fname, Txt):
      used = {p.name for p in fname.parts if isinstance(p, Tok)}
      want = {'--size', '--clw', '--abw', '--dbw', '--asso'}
      need(want <= used, 'tr/name', f'{line}: two different caches get the same file: {fname!r}')
    base = str(fname)
    patched = [e for e in L if e.name == 'patch']
    if not flag:
      need(not patched, 'tr/patch-off', f'{where}: {[e.args[0] for e in patched]} is rewritten')
      continue
    vname = text([fname, '.v']) if '.v' not in base else fname
    need([e.args[0] for e in patched] == [vname], 'tr/patch', f'{where}: the translated file is {vname!r}, rewritten: {[e.args[0] for e in patched]}')
    got0 = S.files.get(vname, {}).get('text', '')
    got = got0.replace(MARK, '')
    for g, (l, exp) in zip(got.splitlines(True) + [''] * 500, smp):
      if g == l and (exp is None or exp[:2] not in MACROS):
        need(True, 'tr/line', '')
        continue
      ok = False
      if exp is not None:
        m = re.fullmatch(r'(\s*)SramGenericPRTL\s*#\s*\(\s*\.(num_bits|num_words)\s*\(\s*(\d+)\s*\)\s*,\s*\.(num_bits|num_words)\s*\(\s*(\d+)\s*\)\s*\)\s*(sram.*)', g, re.S)
        if m:
          val = {m[2]: int(m[3]), m[4]: int(m[5])}
          ok = val == {'num_bits': exp[0], 'num_words': exp[1]} and m[1] == exp[2] and m[6] == exp[3]
      need(ok, f'tr/line {exp[:2] if exp else "other"}', f'{where}: the line {l!r} becomes {g!r}')
    need(len(got.splitlines()) == len(smp), 'tr/line-count', f'{where}: {len(smp)} lines become {len(got.splitlines())}')
    need(got0.count(MARK) == 1 and got0.endswith(MARK), 'tr/wrapper', f'{where}: the SRAM wrapper is not what {vname!r} ends with after the replacement')


WRAP = 'sram/brg_gf14_sram_generic_synopsys.v'
MARK = '<the SRAM wrapper>\n'


@register('translate')
def k_translate(job):
  out = Out(job)
  path = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'blocking_cache', 'translate.py')
  if not os.path.isfile(path):
    out.units.append('skipped: no translation script')
    return out.pack()
  try: rules(out, path)
  except AnalysisError as e:
    out.units.append(f'not decided: {e}')
    out.need(True, 'tr/undecided', '')
  out.units.append('blocking_cache/translate.py')
  return out.pack()
