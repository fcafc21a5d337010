<?php
// LowMemoryVector, IntVector, BitVector: lossless typed lists.
return function (Src $s, Ctx $c): void {
    if ($s->int(2000) === 1999) { large_case($s, $c, [Teds\LowMemoryVector::class, Teds\IntVector::class, Teds\BitVector::class]); return; }
    $cls = $s->pick([Teds\LowMemoryVector::class, Teds\IntVector::class, Teds\BitVector::class]);
    // pools concentrated on one representation, with an occasional value of another
    $kinds = match ($cls) {
        Teds\IntVector::class => 'i',
        Teds\BitVector::class => 'b',
        default => $s->pick(['n', 'i', 'f', 'nnnnnni', 'iiiiiiif', 'ffffffi', 'iiiiiiiis', 'nnnnfs', 'niifsao', 'ffffn', 'nnnnno']),
    };
    $pool = new Pool($s, $kinds, 8);
    $c->label($cls . ($cls === Teds\LowMemoryVector::class ? ":$kinds" : ''));
    $mc = new SeqMachine($s, $c, seq_spec($cls, $pool, $s), $pool);
    // start narrow so that later values force a change of representation
    if ($kinds !== 'b' && $s->chance(1, 2)) {
        $all = $pool->vals;
        $pool->vals = [$all[0]];
        $pool->floaty = true;
        $mc->construct();
        $pool->vals = $all;
    } else {
        $mc->construct();
    }
    while ($s->more(18)) { $mc->step(); if ($mc->spec->bad && $s->int(8) === 7) { $mc->badStep(); } }
    $c->label('size>8', count($mc->m) > 8 ? 1 : 0);
    $c->label('size>64', count($mc->m) > 64 ? 1 : 0);
};
