<?php
// Vector and Deque (and, as far as it can be read, ImmutableSequence) behave as the list that the same operations describe.
return function (Src $s, Ctx $c): void {
    if ($s->int(2000) === 1999) { large_case($s, $c, [Teds\Vector::class, Teds\Deque::class, Teds\ImmutableSequence::class]); return; }
    $pool = new Pool($s);
    $cls = $s->pick([Teds\Vector::class, Teds\Deque::class, Teds\Vector::class, Teds\Deque::class, Teds\ImmutableSequence::class]);
    $c->label($cls);
    $mc = new SeqMachine($s, $c, seq_spec($cls, $pool, $s), $pool);
    $mc->construct();
    while ($s->more(18)) { $mc->step(); }
    $c->label('size>8', count($mc->m) > 8 ? 1 : 0);
};
