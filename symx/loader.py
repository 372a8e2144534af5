"""
Loads probayes from /repo's working tree with its calls routed through the
symbolic shim. The source is re-read and re-instrumented on every run; nothing
under /repo is changed.

Instrumentation (on the AST, before compilation):
  f(a, b)      ->  __symx_call__(f, a, b)      every call except super()/locals()-likes
  x.dtype      ->  __symx_dtype__(x)           object arrays of symbolic reals are float64
  x op= y      ->  x = __symx_iop__('op', x, y)
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
SKIP = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir'}
_OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**',
        ast.FloorDiv: '//', ast.Mod: '%', ast.BitAnd: '&', ast.BitOr: '|',
        ast.BitXor: '^', ast.MatMult: '@', ast.LShift: '<<', ast.RShift: '>>'}


class Instrument(ast.NodeTransformer):
  def visit_Call(self, node):
    self.generic_visit(node)
    f = node.func
    if isinstance(f, ast.Name) and f.id in SKIP:
      return node
    new = ast.Call(func=ast.Name(id='__symx_call__', ctx=ast.Load()),
                   args=[f] + node.args, keywords=node.keywords)
    return ast.copy_location(new, node)

  def visit_Attribute(self, node):
    self.generic_visit(node)
    if node.attr == 'dtype' and isinstance(node.ctx, ast.Load):
      new = ast.Call(func=ast.Name(id='__symx_dtype__', ctx=ast.Load()),
                     args=[node.value], keywords=[])
      return ast.copy_location(new, node)
    return node

  def visit_AugAssign(self, node):
    self.generic_visit(node)
    if isinstance(node.target, ast.Name):
      load = ast.Name(id=node.target.id, ctx=ast.Load())
      val = ast.Call(func=ast.Name(id='__symx_iop__', ctx=ast.Load()),
                     args=[ast.Constant(_OPS[type(node.op)]), load, node.value],
                     keywords=[])
      return ast.copy_location(ast.Assign(targets=[node.target], value=val), node)
    return node


def instrument_source(src, filename):
  tree = ast.parse(src, filename)
  tree = Instrument().visit(tree)
  ast.fix_missing_locations(tree)
  return compile(tree, filename, 'exec')


class Loader(importlib.abc.Loader):
  def __init__(self, path, shim):
    self.path = path
    self.shim = shim

  def create_module(self, spec):
    return None

  def exec_module(self, module):
    with open(self.path) as f:
      src = f.read()
    LOADED[module.__name__] = self.path
    code = instrument_source(src, self.path)
    module.__dict__['__symx_call__'] = self.shim.call
    module.__dict__['__symx_dtype__'] = self.shim.dtype
    module.__dict__['__symx_iop__'] = self.shim.iop
    exec(code, module.__dict__)


LOADED = {}


class Finder(importlib.abc.MetaPathFinder):
  def __init__(self, root, shim):
    self.root = root
    self.shim = shim

  def find_spec(self, fullname, path=None, target=None):
    if fullname != 'probayes' and not fullname.startswith('probayes.'):
      return None
    base = os.path.join(self.root, *fullname.split('.'))
    init = os.path.join(base, '__init__.py')
    if os.path.isfile(init):
      spec = importlib.machinery.ModuleSpec(fullname, Loader(init, self.shim), origin=init,
                                            is_package=True)
      spec.submodule_search_locations = [base]
      return spec
    fn = base + '.py'
    if os.path.isfile(fn):
      return importlib.machinery.ModuleSpec(fullname, Loader(fn, self.shim), origin=fn)
    return None


def load_instrumented():
  """ import probayes (instrumented) and return the package """
  from symx import shim
  assert 'probayes' not in sys.modules
  sys.meta_path.insert(0, Finder(REPO, shim))
  import probayes
  return probayes


def load_plain():
  """ import the unmodified probayes from /repo """
  sys.path.insert(0, REPO)
  import probayes
  assert os.path.realpath(probayes.__file__).startswith(os.path.realpath(REPO)), \
      probayes.__file__
  return probayes
