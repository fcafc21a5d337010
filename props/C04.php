<?php
// Tree and sorted-vector maps/sets against a model sorted by the documented order.
return function (Src $s, Ctx $c): void {
    if ($s->int(2000) === 1999) { large_case($s, $c, [Teds\StrictTreeMap::class, Teds\StrictTreeSet::class, Teds\StrictSortedVectorMap::class, Teds\StrictSortedVectorSet::class]); return; }
    $kinds = $s->pick(['niiffssaaoo', 'i', 's', 'if', 'nifs', 'ao', 'a', 'o', 'niiffssaaoor']);
    $keys = new Pool($s, $kinds, 16);
    $pool = new Pool($s, 'niifsao', 6);
    $cls = $s->pick([Teds\StrictTreeMap::class, Teds\StrictTreeSet::class, Teds\StrictSortedVectorMap::class, Teds\StrictSortedVectorSet::class]);
    $c->label($cls);
    $mc = new MapMachine($s, $c, $cls, $keys, $pool);
    $mc->construct();
    while ($s->more(18)) { $mc->step(); }
    $c->label('size>8', count($mc->m->e) > 8 ? 1 : 0);
};
