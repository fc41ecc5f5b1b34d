"""The Hamiltonian functions and classes of experiments/trainer/hamiltonian_dynamics.py, compiled from the file's current text.

The module cannot be imported (it needs the package `oil`, which is not installed). What is dropped: import statements of modules that are
missing (oil, .classifier), the trainers, the plotting classes and the dataset constructor that writes files. Everything that is kept is
compiled from the parsed source without changes: all top-level functions, and the methods of HamiltonianDataset and its two subclasses."""
import ast, os, types

PATH = '/repo/experiments/trainer/hamiltonian_dynamics.py'
CLASSES = ('HamiltonianDataset', 'SHO', 'DoubleSpringPendulum')
SKIP_MODULES = ('oil', 'classifier', 'matplotlib', 'mpl_toolkits')


def load(extra=None):
    src = open(PATH).read()
    tree = ast.parse(src)
    body = []
    for n in tree.body:
        if isinstance(n, ast.ImportFrom) and (n.level or (n.module or '').split('.')[0] in SKIP_MODULES): continue
        if isinstance(n, ast.Import) and any(a.name.split('.')[0] in SKIP_MODULES for a in n.names): continue
        if isinstance(n, ast.ClassDef) and n.name not in CLASSES: continue
        if isinstance(n, (ast.ClassDef, ast.FunctionDef)): n.decorator_list = [d for d in n.decorator_list if not (isinstance(d, ast.Name) and d.id == 'export')]
        body.append(n)
    tree.body = body
    m = types.ModuleType('hamiltonian_dynamics_extracted')
    m.__dict__.update(extra or {})
    exec(compile(tree, PATH, 'exec'), m.__dict__)

    def pendulum():
        """the real subclass constructor on top of a base constructor that integrates and stores nothing"""
        base = m.__dict__['HamiltonianDataset']
        old = base.__init__
        base.__init__ = lambda self, *a, **k: None
        try: return m.__dict__['DoubleSpringPendulum']()
        finally: base.__init__ = old
    m.pendulum = pendulum
    return m
