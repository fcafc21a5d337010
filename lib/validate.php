<?php
// Class invariants of a collection, checked from outside.

function has_nan_array($v, int $d = 0): bool {
    if (!is_array($v) || $d > 5) { return false; }
    foreach ($v as $x) {
        if ((is_float($x) && $x !== $x) || has_nan_array($x, $d + 1)) { return true; }
    }
    return false;
}
/** Fails when $o is not a well-formed instance of its class. Does not change it. */
function coll_check(Ctx $c, $o, string $when = ''): void {
    $cls = get_class($o);
    $kind = coll_kind($cls);
    $f = function (string $m) use ($c, $cls, $when) { $c->fail("$cls $when: $m"); };
    $n = count($o);
    $vals = $o->values();
    if (!array_is_list($vals)) { $f('values() is not a list: ' . show($vals)); }
    if (count($vals) !== $n) { $f("count() is $n but values() has " . count($vals)); }
    if ($o->isEmpty() !== ($n === 0)) { $f("isEmpty() is wrong for count $n"); }
    $pairs = coll_pairs($o);
    if (count($pairs) !== $n) { $f("count() is $n but there are " . count($pairs) . ' pairs'); }
    foreach ($pairs as $i => $p) {
        if (!is_array($p) || !array_is_list($p) || count($p) !== 2) { $f('pair ' . show($p)); }
        if (ReflectionReference::fromArrayElement($p, 0) || ReflectionReference::fromArrayElement($p, 1)) { $f('holds a PHP reference'); }
    }
    for ($i = 0; $i < $n; $i++) {
        if (ReflectionReference::fromArrayElement($vals, $i)) { $f('holds a PHP reference'); }
    }
    $kinds = coll_elem_kinds($cls, '');
    foreach ($vals as $v) {
        $ok = match ($kinds) { 'i' => is_int($v), 'b' => is_bool($v), 's' => is_string($v), default => true };
        if (!$ok) { $f('holds ' . show($v)); }
    }
    if ($kind === 'heap') {
        $h = clone $o;
        $x = [];
        while (!$h->isEmpty()) { $x[] = $h->extract(); if (count($x) > $n) { $f('extracts more than it holds'); } }
        $sg = $cls === Teds\StrictMinHeap::class ? 1 : -1;
        for ($i = 1; $i < count($x); $i++) {
            if (ref_compare($x[$i - 1], $x[$i]) * $sg > 0) { $f('extracts out of order: ' . show($x)); }
        }
        if (count($x) !== $n) { $f("count() is $n but extracts " . count($x)); }
    } else {
        $i = 0;
        foreach ($o as $k => $v) {
            if ($i >= $n) { $f("iterates over more than $n entries"); }
            if (!same($v, $pairs[$i][1]) || (!same($k, $pairs[$i][0]))) { $f("iteration entry $i is " . show([$k, $v]) . ' but the listing says ' . show($pairs[$i])); }
            $i++;
        }
        if ($i !== $n) { $f("iterates over $i of $n entries"); }
    }
    if ($kind === 'map' || $kind === 'set' || $kind === 'sorted') {
        $keys = $kind === 'map' ? array_column($pairs, 0) : $vals;
        $hash = $cls === Teds\StrictHashMap::class || $cls === Teds\StrictHashSet::class;
        if ($hash) {
            $seen = [];
            foreach ($keys as $k) {
                $x = canon($k);
                if (isset($seen[$x])) { $f('key ' . show($k) . ' is present twice: ' . show($keys)); }
                $seen[$x] = 1;
            }
        } else {
            for ($i = 1; $i < $n; $i++) {
                if (ref_compare($keys[$i - 1], $keys[$i]) >= 0) { $f('keys out of order: ' . show($keys)); }
            }
        }
        foreach (array_slice($keys, 0, 24) as $k) {
            if (has_nan_array($k)) { continue; }
            $in = $kind === 'map' ? $o->containsKey($k) : $o->contains($k);
            if (!$in) { $f('does not find its own ' . show($k)); }
        }
    }
    if ($kind === 'seq') {
        for ($i = 0; $i < min($n, 24); $i++) {
            if (!same($o->get($i), $vals[$i])) { $f("get($i) is " . show($o->get($i)) . ' but values() says ' . show($vals[$i])); }
        }
    }
    if ($kind === 'pairs') {
        for ($i = 0; $i < min($n, 24); $i++) {
            if (!same($o->valueAt($i), $pairs[$i][1]) || !same($o->keyAt($i), $pairs[$i][0])) { $f("entry $i differs"); }
        }
    }
}
