<?php
// SortedIntVectorSet, ImmutableSortedIntSet, ImmutableSortedStringSet against a sorted list of distinct members.
/** Known finding F02: SortedIntVectorSet::remove() always returns false, pinned by the repository's tests. */
function known_remove_false(): bool {
    static $k = null;
    return $k ??= (new Teds\SortedIntVectorSet([1]))->remove(1) === false;
}
return function (Src $s, Ctx $c): void {
    if ($s->int(2000) === 1999) { large_case($s, $c, [...SORTED_SETS]); return; }
    $cls = $s->pick([Teds\SortedIntVectorSet::class, Teds\ImmutableSortedIntSet::class, Teds\ImmutableSortedStringSet::class]);
    $c->label($cls);
    $isStr = $cls === Teds\ImmutableSortedStringSet::class;
    $mut = $cls === Teds\SortedIntVectorSet::class;
    $pool = new Pool($s, $isStr ? 's' : 'i', 14);
    $any = new Pool($s, 'niifsa', 4);
    $small = $s->chance(1, 3);
    $elem = function () use ($s, $pool, $isStr, $small) {
        if ($small && $s->chance(2, 3)) { return $isStr ? substr('abcabcabc', $s->int(3), $s->int(5)) : $s->int(40) - 15; }
        if ($isStr && $s->int(60) === 59) { return str_repeat('z', $s->pick([252, 253, 254, 255, 65534, 65535, 65536, 65537])); }
        return $pool->any();
    };
    $member = fn($v) => $isStr ? is_string($v) : is_int($v);
    $vals = [];
    $n = $s->size($s->chance(1, 6) ? 200 : 24);
    for ($i = 0; $i < $n; $i++) { $vals[] = $elem(); }
    if (!$isStr && $s->int(150) === 149) {
        // 8 KB and more: some sets then use the serialized string as their storage
        $k = $s->pick([1, 3, 50000, 1 << 35]);
        for ($i = ($k < 5 ? 4200 : ($k < 60000 ? 2100 : 1030)) + $s->int(20); $i > 0; $i--) { $vals[] = $i * $k; }
    }
    $order = $s->int(4);
    if ($order === 1) { sort($vals, $isStr ? SORT_STRING : SORT_REGULAR); }
    if ($order === 2) { $vals = array_values(array_unique($vals, SORT_REGULAR | ($isStr ? SORT_STRING : 0))); }
    $bad = $s->int(12) === 11;
    if ($bad) {
        $x = $any->any();
        if ($member($x)) { $x = null; }
        array_splice($vals, $s->int(count($vals) + 1), 0, [$x]);
    }
    [$src, $d] = make_value_source($s, $vals);
    $how = $s->int(6);
    if ($c->verbose) { $c->say("\$o = $cls(" . ($how === 5 ? '__set_state' : $d) . ' of ' . show($vals) . ')'); }
    $c->doing = "construct $cls";
    $a = attempt(fn() => $how === 5 ? $cls::__set_state($vals) : (!$vals && $how === 4 ? new $cls() : new $cls($src)));
    if ($bad) { expect_outcome($c, 'constructing with a value of another type', ['TypeError'], $a); $c->label('bad'); return; }
    if ($a[0] !== 'ok') { $c->fail('construct: ' . show_outcome($a)); }
    $o = $a[1];
    if (get_class($o) !== $cls) { $c->fail('made a ' . get_class($o)); }
    $cmp = $isStr ? 'strcmp' : fn($x, $y) => $x <=> $y;
    $m = [];
    if (count($vals) > 1000) { $m = array_keys(array_flip($vals)); } else { foreach ($vals as $v) { if (!in_array($v, $m, true)) { $m[] = $v; } } }
    usort($m, $cmp);
    $check = function (string $what) use (&$o, &$m, $c, $mut) {
        $n = count($m);
        if (count($o) !== $n || $o->count() !== $n || $o->isEmpty() !== ($n === 0)) { $c->fail("after $what: count() is " . count($o) . ", expected $n"); }
        if ($o->toArray() !== $m || $o->values() !== $m) { $c->fail("after $what: contents " . show($o->toArray()) . ', expected ' . show($m)); }
        if ($mut && $o->capacity() < $n) { $c->fail('capacity below count'); }
    };
    unset($a);
    if ($s->int(4) === 3) { [$o, $d] = rebirth($s, $o); $c->say("\$o: $d"); }
    $check('construct');
    while ($s->more(18)) {
        $c->ops++;
        $n = count($m);
        if ($n > 1) { $c->nt(); }
        $ops = ['contains' => 6, 'indexOf' => 5, 'get' => 4, 'ends' => 2, 'iter' => 2, 'clone' => 1, 'ser' => 2, 'json' => 1];
        $ops += $mut ? ['add' => 10, 'remove' => 8, 'pop' => 3, 'clear' => 1, 'addbad' => 1, 'bulk' => 2, 'bulkdel' => 2] : ['mutate' => 2];
        $op = $s->pickw($ops);
        $probe = fn() => $m && $s->chance(1, 2) ? fresh_copy($m[$s->int($n)]) : ($s->chance(1, 4) ? $pool->near() : $elem());
        $c->doing = $op;
        switch ($op) {
            case 'contains':
                $v = $s->int(5) === 4 ? $any->any() : $probe();
                if ($c->verbose) { $c->doing = 'contains ' . show($v); }
                expect_outcome($c, $c->doing, ['ok', in_array($v, $m, true)], attempt(fn() => $o->contains($v)));
                break;
            case 'indexOf':
                $v = $probe();
                if (!$member($v)) { $v = $isStr ? 'q' : 77; }
                if ($c->verbose) { $c->doing = 'indexOf ' . show($v); }
                $k = array_search($v, $m, true);
                expect_outcome($c, $c->doing, ['ok', $k === false ? null : $k], attempt(fn() => $o->indexOf($v)));
                break;
            case 'get':
                $i = $s->int(6) === 5 ? $s->pick([-1, $n, $n + 1, PHP_INT_MAX, PHP_INT_MIN, 1 << 32]) : ($n ? $s->int($n) : 0);
                expect_outcome($c, "get($i)", $i >= 0 && $i < $n ? ['ok', $m[$i]] : [OOB], attempt(fn() => $o->get($i)));
                break;
            case 'ends':
                expect_outcome($c, 'first()', $n ? ['ok', $m[0]] : [UNDERFLOW], attempt(fn() => $o->first()));
                expect_outcome($c, 'last()', $n ? ['ok', $m[$n - 1]] : [UNDERFLOW], attempt(fn() => $o->last()));
                break;
            case 'iter':
                $got = [];
                $got2 = [];
                foreach ($o as $k => $v) { $got[$k] = $v; }
                $it = $o->getIterator();
                for ($it->rewind(); $it->valid(); $it->next()) { $it->current(); $got2[$it->key()] = $it->current(); }
                expect_outcome($c, 'iteration', ['ok', [$m, $m]], ['ok', [$got, $got2]]);
                break;
            case 'json':
                expect_outcome($c, 'jsonSerialize', ['ok', $m], attempt(fn() => $o->jsonSerialize()));
                break;
            case 'clone':
                $old = $o;
                $o = clone $o;
                if ($mut) { $old->clear(); }
                unset($old);
                break;
            case 'ser':
                switch ($s->int(3)) {
                    case 0: $o = unserialize(serialize($o)); break;
                    case 1: if ($isStr) { $o = $cls::unserialize($s->int(8) ? $o->serialize() : literal($o->serialize())); } break;
                    case 2: $o = $cls::__set_state($o->toArray()); break;
                }
                if (get_class($o) !== $cls) { $c->fail('class changed to ' . get_class($o)); }
                break;
            case 'mutate':
                $v = $s->chance(1, 2) ? $probe() : $any->any();
                $f = $s->pick(['add', 'remove', 'clear']);
                if (!method_exists($o, $f)) { break; }
                expect_outcome($c, $f, [Teds\UnsupportedOperationException::class], attempt(fn() => $f === 'clear' ? $o->clear() : $o->$f($v)));
                break;
            case 'add':
                $v = $probe();
                if (!$member($v)) { $v = 3; }
                if ($c->verbose) { $c->doing = 'add ' . show($v); }
                $in = in_array($v, $m, true);
                expect_outcome($c, $c->doing, ['ok', !$in], attempt(fn() => $o->add($v)));
                if (!$in) { $m[] = $v; usort($m, $cmp); }
                break;
            case 'remove':
                $v = $probe();
                if (!$member($v)) { $v = 3; }
                if ($c->verbose) { $c->doing = 'remove ' . show($v); }
                $in = in_array($v, $m, true);
                expect_outcome($c, $c->doing, ['ok', $in && !known_remove_false()], attempt(fn() => $o->remove($v)));
                $m = array_values(array_filter($m, fn($x) => $x !== $v));
                break;
            case 'bulk':
                $k = $n > 300 ? 0 : $s->int(60);
                $st = $s->range(-140, 140);
                $dir = $s->pick([1, -1, 300, -70000, 5]);
                $c->doing = "add $k ints from $st step $dir";
                for ($i = 0; $i < $k; $i++) {
                    $v = $st + $i * $dir;
                    $in = in_array($v, $m, true);
                    if ($o->add($v) !== !$in) { $c->fail("add($v) returned the wrong bool"); }
                    if (!$in) { $m[] = $v; }
                }
                usort($m, $cmp);
                break;
            case 'bulkdel':
                $k = $s->int($n + 1);
                $c->doing = "remove $k members";
                for ($i = 0; $i < $k; $i++) {
                    $p = $s->int(4) === 0 ? 0 : intdiv(count($m), 2);
                    $o->remove($m[$p]);
                    array_splice($m, $p, 1);
                }
                break;
            case 'pop':
                expect_outcome($c, 'pop()', $n ? ['ok', array_pop($m)] : [UNDERFLOW], attempt(fn() => $o->pop()));
                break;
            case 'clear':
                $o->clear();
                $m = [];
                break;
            case 'addbad':
                $v = $any->any();
                if (is_int($v)) { $v = (float)$v; }
                expect_outcome($c, 'add ' . show($v), ['TypeError'], attempt(fn() => $o->add($v)));
                $a = attempt(fn() => $o->remove($v));
                if ($a !== ['ok', false] && $a[0] !== 'TypeError') { $c->fail('remove(' . show($v) . ') gives ' . show_outcome($a)); }
                break;
        }
        $c->say($c->doing);
        $check($c->doing);
    }
};
