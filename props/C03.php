<?php
// StrictHashMap / StrictHashSet against an insertion-ordered model keyed by strict identity.
return function (Src $s, Ctx $c): void {
    if ($s->int(2000) === 1999) { large_case($s, $c, [Teds\StrictHashMap::class, Teds\StrictHashSet::class]); return; }
    $kinds = $s->pick(['niiffssaaoo', 'i', 's', 'if', 'nifs', 'ao', 'a', 'o', 'niiffssaaoor']);
    $keys = new Pool($s, $kinds, 16);
    $pool = new Pool($s, 'niifsao', 6);
    $cls = $s->pick([Teds\StrictHashMap::class, Teds\StrictHashSet::class]);
    $c->label($cls);
    $mc = new MapMachine($s, $c, $cls, $keys, $pool);
    $mc->construct();
    while ($s->more(18)) { $mc->step(); }
    $c->label('size>8', count($mc->m->e) > 8 ? 1 : 0);
};
