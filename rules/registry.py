import importlib
REGISTRY = {}
for m in ('resources', 'kernel', 'dag', 'clock', 'events', 'ports', 'memory', 'functional', 'checkpoint', 'frontpipe', 'lifetime'):
    m = importlib.import_module(m)
    for n in dir(m):
        if len(n) == 3 and n[0].isupper() and n[1:].isdigit() and getattr(m, n).__module__ == m.__name__:
            REGISTRY[n] = getattr(m, n)
