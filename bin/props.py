"""What each property's check runs."""
def C(name, shards=20, events=16000, **k): return dict(name=name, shards=shards, events=events, **k)
def M(name, depth=2, deep=3, **k): return dict(name=name, depth=depth, deep=deep, **k)
IT = [M(c + ':it') for c in ('Vector', 'Deque', 'IntVector', 'LowMemoryVector', 'BitVector', 'StrictHashMap', 'StrictTreeMap', 'StrictSortedVectorMap', 'StrictHashSet', 'StrictTreeSet', 'StrictSortedVectorSet', 'SortedIntVectorSet', 'MutableIterable')]
CP = [M(c + ':cp') for c in ('Vector', 'Deque', 'IntVector', 'LowMemoryVector', 'BitVector', 'StrictHashMap', 'StrictTreeMap', 'StrictSortedVectorMap', 'StrictHashSet', 'StrictTreeSet', 'StrictSortedVectorSet', 'SortedIntVectorSet', 'StrictMinHeap', 'StrictMaxHeap', 'MutableIterable')]
MODELS = {
 'C01': [M('Vector:', split=6), M('Deque:', split=3), M('Vector:8'), M('Deque:8'), M('ImmutableSequence:', 1, 2)],
 'C02': [M('IntVector:'), M('LowMemoryVector:'), M('LowMemoryVector:b')],
 'C03': [M('BitVector:')],
 'C04': [M('StrictHashMap:', 3, 4), M('StrictHashMap:8', 3, 4), M('StrictHashMap:u', 3, 4), M('StrictHashSet:', 3, 4), M('StrictHashSet:8', 3, 4)],
 'C05': [M('StrictTreeMap:', 2, 3), M('StrictSortedVectorMap:', 2, 3), M('StrictTreeSet:', 3, 4), M('StrictSortedVectorSet:', 3, 4)],
 'C06': [M('SortedIntVectorSet:', 3, 4)],
 'C08': [M('StrictMinHeap:', 5, 7), M('StrictMaxHeap:', 5, 7)],
 'C11': IT, 'C12': CP,
 'C16': [M('CachedIterable:lazy', 2, 3, module='MCLazy'), M('CachedIterable:dup', 2, 3, module='MCLazy')],
 'C17': [M('MutableIterable:')],
}
PROPS = {
 'C01': dict(campaigns=[C('C01')]),
 'C02': dict(campaigns=[C('C02')]),
 'C03': dict(campaigns=[C('C03')]),
 'C04': dict(campaigns=[C('C04', events=12000)]),
 'C05': dict(campaigns=[C('C05')]),
 'C06': dict(campaigns=[C('C06', events=10000)]),
 'C07': dict(campaigns=[C('C07', events=12000)]),
 'C08': dict(campaigns=[C('C08')]),
 'C09': dict(campaigns=[C('C09', events=8000)]),
 'C10': dict(campaigns=[C('C10', events=12000)]),
 'C11': dict(campaigns=[C('C11')]),
 'C12': dict(campaigns=[C('C12')]),
 'C13': dict(campaigns=[C('C13')]),
 'C14': dict(campaigns=[C('C14'), C('C14m', events=3000, variant='plain')]),
 'C15': dict(campaigns=[C('C15'), C('C15u', events=6000), C('C15c', events=6000)]),
 'C16': dict(campaigns=[C('C16')]),
 'C17': dict(campaigns=[C('C17')]), 
 'C18': dict(campaigns=[C('C18')]),
 'C19': dict(campaigns=[C('C19')]),
 'C20': dict(campaigns=[C('C20')]),
 'C21': dict(campaigns=[C('C21')]),
 'C22': dict(campaigns=[C('C22')]),
 'C23': dict(campaigns=[C('C23')]),
 'C24': dict(campaigns=[C('C24')]),
}
NOT_APPLICABLE = []

for p, ms in MODELS.items(): PROPS[p]['models'] = ms
PROPS['C07']['shapes'] = [{'class': 'StrictTreeSet', 'keys': 8, 'deep': 10}, {'class': 'StrictTreeMap', 'keys': 8, 'deep': 10}]

for p in ('C09', 'C10'): PROPS[p]['orders'] = [dict(seed=k, size=220, deep=400) for k in range(4)]
