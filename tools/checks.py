"""What each check runs: traces recorded by the driver (args) and the specification module that validates them."""
def api(spec, count, what='r', *more, **kw):
    return dict(spec=spec, args=['api', '--what', what, '--count', '%C'] + list(more), count=count, **kw)
def probe(spec, name='probe'): return dict(spec=spec, args=[name, '--file', '%P'], thorough=1)
def cmd(spec, name, count, *more, **kw): return dict(spec=spec, args=[name, '--count', '%C'] + list(more), count=count, **kw)
CHECKS = {
  'C01': dict(traces=[api('UnitsTrace', 400), probe('UnitsTrace')]),
  'C02': dict(traces=[cmd('SessionTrace', 'session', 80)]),
  'C03': dict(traces=[cmd('LegendreTrace', 'legendre', 400)]),
  'C04': dict(traces=[cmd('LoadingTrace', 'load', 60)]),
  'C05': dict(traces=[api('ReferenceTrace', 400), cmd('ReferenceTrace', 'shell', 4), probe('ReferenceTrace')]),
  'C06': dict(models=['Convolution'], traces=[cmd('ReferenceTrace', 'shell', 40), api('ReferenceTrace', 200, 'r', '--mods', 'fjc/thermodynamics/isometric'), probe('ReferenceTrace')]),
  'C07': dict(traces=[cmd('DistributionTrace', 'dist', 150), probe('DistributionTrace', 'dist')]),
  'C08': dict(traces=[cmd('ModifiedTrace', 'modified', 300), api('ReferenceTrace', 120, 'r', '--mods', 'fjc/thermodynamics/modified_canonical'), probe('ReferenceTrace')]),
  'C09': dict(models=['NewtonModel'], traces=[cmd('NewtonTrace', 'newton', 2000)]),
  'C10': dict(models=['QuadratureModel'], traces=[cmd('QuadratureTrace', 'quad', 420)]),
  'C11': dict(models=['ElemSelfTest'], traces=[cmd('SpecialTrace', 'special', 800)]),
  'C12': dict(traces=[cmd('MonteCarloTrace', 'mc', 40)]),
  'C13': dict(models=['HistogramModel'], traces=[cmd('HistogramTrace', 'hist', 200)]),
  'C14': dict(traces=[cmd('ObjectTrace', 'objects', 14), api('ObjectTrace', 10, 'l', '--mods', 'none')]),
  'C15': dict(traces=[dict(spec='HyperelasticTrace', args=['hyper'])]),
  'C16': dict(models=['DamageModel'], traces=[cmd('DamageTrace', 'damage', 8)]),
  'C17': dict(traces=[api('InterfaceTrace', 150, 'rx')]),
  'C18': dict(traces=[cmd('ObjectTrace', 'objects', 6, lang='Python'), cmd('PythonNetTrace', 'damage', 6, '--full', '0', lang='Python'),
                      dict(spec='PythonNetTrace', args=['hyper', '--cells', '0', '--full', '0', '--mirrors', '18'], lang='Python')]),
  'C19': dict(traces=[cmd('ObjectTrace', 'objects', 6, lang='Julia')]),
}
TITLE = {}
