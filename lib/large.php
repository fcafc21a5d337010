<?php
// Large collections: sizes around the limits of 8- and 16-bit counters and of several growth steps, few operations, whole contents compared.

function large_size(Src $s): int {
    return match ($s->int(7)) {
        0 => $s->range(250, 260), 1 => $s->range(500, 3000), 2 => $s->range(4090, 4100), 3 => $s->range(8000, 20000),
        4 => $s->range(32760, 32775), 5 => $s->range(65530, 65545), default => $s->range(65546, 80000),
    };
}
function large_val(string $cls, int $mode, int $i) {
    switch ($cls) {
        case Teds\BitVector::class: return $mode === 0 ? true : ($mode === 1 ? $i % 3 === 0 : $i * 2654435761 % 7 < 3);
        case Teds\IntVector::class: return $mode === 0 ? $i % 100 : ($mode === 1 ? $i - 40000 : $i * 2654435761 - ($i << 33));
    }
    return match ($mode) { 0 => $i % 100, 1 => "v$i", default => $i % 3 ? $i : ($i % 2 ? "s$i" : $i / 2) };
}

function large_seq(Src $s, Ctx $c, string $cls): void {
    $n = large_size($s);
    $mode = $s->int(3);
    $v = fn(int $i) => large_val($cls, $mode, $i);
    $m = [];
    for ($i = 0; $i < $n; $i++) { $m[] = $v($i); }
    $how = $s->int(3);
    $imm = coll_immutable($cls);
    if ($how === 0 || $imm) { $o = new $cls($how === 1 ? new ArrayIterator($m) : $m); }
    else {
        $o = new $cls();
        if ($how === 1) { foreach ($m as $x) { $o->push($x); } }
        else { $h = intdiv($n, 2); for ($i = $h; $i < $n; $i += 500) { $o->push(...array_slice($m, $i, min(500, $n - $i))); } for ($i = $h - 1; $i >= 0; $i--) { $o->unshift($m[$i]); if ($cls !== Teds\Deque::class && $i > 40) { $o->insert(0, ...array_slice($m, 0, $i)); break; } } }
    }
    $c->say("$cls of $n elements, kind $mode, built $how");
    $c->label('large');
    $c->nt();
    $check = function (string $what) use (&$o, &$m, $c, $cls) {
        $k = count($m);
        if (count($o) !== $k) { $c->fail("large $cls: after $what count() is " . count($o) . ", expected $k"); }
        $a = $o->toArray();
        if ($a !== $m) { foreach ($m as $i => $x) { if (!array_key_exists($i, $a) || $a[$i] !== $x) { $c->fail("large $cls: after $what element $i of $k is " . show($a[$i] ?? null) . ', expected ' . show($x)); } } $c->fail("large $cls: after $what toArray() has " . count($a) . " elements, expected $k"); }
    };
    $c->doing = 'construct';
    $check('construct');
    while ($s->more(8)) {
        $c->ops++;
        $k = count($m);
        $op = $s->pickw($imm ? ['get' => 3, 'indexOf' => 1, 'copy' => 2, 'iterate' => 1] : ['get' => 3, 'indexOf' => 1, 'copy' => 2, 'iterate' => 1, 'set' => 3, 'push' => 3, 'pop' => 2, 'shift' => 2, 'insert' => 3, 'unset' => 3, 'size' => 1]);
        $c->doing = $op;
        $i = $k ? $s->int($k) : 0;
        $j = $s->int(100);
        $say = "$op $i $j";
        switch ($op) {
            case 'get': if ($k && ($o->get($i) !== $m[$i] || $o[$i] !== $m[$i] || $o->first() !== $m[0] || $o->last() !== $m[$k - 1])) { $c->fail("large $cls: get($i) is wrong"); } continue 2;
            case 'indexOf':
                if (!$k || $cls === Teds\BitVector::class) { continue 2; }
                $e = array_search($m[$i], $m, true);
                if ($o->indexOf($m[$i]) !== $e || $o->contains($m[$i]) !== true) { $c->fail("large $cls: indexOf() gives " . show($o->indexOf($m[$i])) . ", expected $e"); }
                continue 2;
            case 'copy': [$o, $d] = rebirth($s, $o); $say = $d; break;
            case 'iterate':
                $x = 0;
                foreach ($o as $y => $z) { if ($y !== $x || $z !== $m[$x]) { $c->fail("large $cls: iteration step $x gives key $y value " . show($z)); } $x++; }
                if ($x !== $k) { $c->fail("large $cls: iterates $x of $k elements"); }
                continue 2;
            case 'set': if (!$k) { continue 2; } $o[$i] = $v($j); $m[$i] = $v($j); break;
            case 'push': for ($y = 0; $y < 200; $y++) { $o->push($v($j + $y)); $m[] = $v($j + $y); } break;
            case 'pop': $y = $s->int(3) === 2 ? $k - $s->int(min($k, 300)) : $s->int(min($k, 300)); for (; $y > 0; $y--) { if ($o->pop() !== array_pop($m)) { $c->fail("large $cls: pop() at size " . count($m) . ' returned another element'); } } break;
            case 'shift':
                $y = $s->int(3) === 2 && $cls === Teds\Deque::class ? $k - $s->int(min($k, 300)) : $s->int(min($k, 100));
                for ($z = 0; $z < $y; $z++) { if ($o->shift() !== $m[$z]) { $c->fail("large $cls: shift() number $z returned another element"); } }
                $m = array_slice($m, $y);
                break;
            case 'insert': $x = []; for ($y = 0; $y <= $j; $y++) { $x[] = $v($y * 7); } $o->insert($i, ...$x); array_splice($m, $i, 0, $x); break;
            case 'unset': if (!$k) { continue 2; } unset($o[$i]); array_splice($m, $i, 1); break;
            default:
                if (!method_exists($o, 'setSize')) { continue 2; }
                $to = $s->int($k + 1000);
                $o->setSize($to, $v($j));
                $m = $to <= $k ? array_slice($m, 0, $to) : array_pad($m, $to, $v($j));
                $say = "setSize($to)";
        }
        $c->say($say);
        $check($say);
    }
}

/** Maps, sets, pair lists and heaps. Keys are ints or non-numeric strings, so that a PHP array is the model. */
function large_assoc(Src $s, Ctx $c, string $cls): void {
    $kind = coll_kind($cls);
    $set = $kind === 'set' || $kind === 'sorted';
    $n = large_size($s);
    $strs = $cls === Teds\ImmutableSortedStringSet::class || ($kind !== 'sorted' && $s->int(3) === 2);
    $step = $s->pick([1, 7919, 104729, -1]);
    $mul = $s->pick([1, 1, (1 << 20) + 1, (1 << 33) + 1]);
    $key = function (int $i) use ($strs, $step, $mul, $n) { $x = ($i * $step) % 1000003; return $strs ? "k$x" : $x * $mul; };
    $m = [];
    for ($i = 0; $i < $n; $i++) { $m[$key($i)] = $set ? true : $i; }
    $sorted = $cls !== Teds\StrictHashMap::class && $cls !== Teds\StrictHashSet::class;
    $norm = function () use (&$m, $sorted, $strs) { if ($sorted) { ksort($m, $strs ? SORT_STRING : SORT_NUMERIC); } };
    $imm = coll_immutable($cls);
    // inserting one at a time in random order is quadratic for the sorted vectors
    $vec = in_array($cls, [Teds\StrictSortedVectorMap::class, Teds\StrictSortedVectorSet::class, Teds\SortedIntVectorSet::class], true);
    $slow = $vec && !($step === 1 && !$strs);
    $src = $set ? array_keys($m) : $m;
    $how = $imm || ($slow && $n > 5000) ? 0 : $s->int(3);
    if ($how === 0) { $o = new $cls($src); }
    elseif ($how === 1) { $o = new $cls(new ArrayIterator($src)); }
    else { $o = new $cls(); foreach ($m as $k => $x) { if ($set) { $o->add($k); } else { $o[$k] = $x; } } }
    $norm();
    $c->say("$cls of $n entries, built $how, step $step" . ($strs ? ', strings' : " times $mul"));
    $c->label('large');
    $c->nt();
    $check = function (string $what) use (&$o, &$m, $c, $cls, $set) {
        $k = count($m);
        if (count($o) !== $k) { $c->fail("large $cls: after $what count() is " . count($o) . ", expected $k"); }
        $ks = array_keys($m);
        $a = $set ? $o->values() : $o->keys();
        if ($a !== $ks) { foreach ($ks as $i => $x) { if (($a[$i] ?? null) !== $x) { $c->fail("large $cls: after $what entry $i of $k is " . show($a[$i] ?? null) . ', expected ' . show($x)); } } $c->fail("large $cls: after $what there are " . count($a) . " keys, expected $k"); }
        if (!$set && $o->values() !== array_values($m)) { $c->fail("large $cls: after $what a value is wrong"); }
    };
    $c->doing = 'construct';
    $check('construct');
    while ($s->more(8)) {
        $c->ops++;
        $k = count($m);
        $op = $s->pickw($imm ? ['has' => 3, 'copy' => 2, 'iterate' => 1] : ['has' => 3, 'copy' => 2, 'iterate' => 1, 'put' => 3, 'remove' => 3, 'thin' => 2, 'loop' => 1]);
        $c->doing = $op;
        $j = $s->int($n + 50);
        $say = "$op $j";
        switch ($op) {
            case 'has':
                for ($y = 0; $y < 40; $y++) {
                    $q = $key($j + $y * 37);
                    $e = isset($m[$q]);
                    if (($set ? $o->contains($q) : $o->containsKey($q)) !== $e) { $c->fail("large $cls: answers " . ($e ? 'false' : 'true') . ' for ' . show($q)); }
                    if (!$set && $e && $o[$q] !== $m[$q]) { $c->fail("large $cls: value of " . show($q) . ' is ' . show($o[$q])); }
                }
                continue 2;
            case 'copy': [$o, $d] = rebirth($s, $o); $say = $d; break;
            case 'iterate':
                $ks = array_keys($m);
                $x = 0;
                foreach ($o as $y => $z) { if (($set ? $z : $y) !== $ks[$x] || (!$set && $z !== $m[$y])) { $c->fail("large $cls: iteration step $x gives " . show([$y, $z])); } $x++; }
                if ($x !== $k) { $c->fail("large $cls: iterates $x of $k entries"); }
                continue 2;
            case 'put': for ($y = 0; $y < 60; $y++) { $q = $key($j + $y); if ($set) { if ($o->add($q) === isset($m[$q])) { $c->fail("large $cls: add() returned the wrong bool"); } $m[$q] = true; } else { $o[$q] = $y; $m[$q] = $y; } } $norm(); break;
            case 'remove': for ($y = 0; $y < 60; $y++) { $q = $key($j + $y); if ($set) { $o->remove($q); } else { unset($o[$q]); } unset($m[$q]); } break;
            case 'thin':
                // most of the entries go
                $mod = $s->pick([2, 3, 10]);
                if ($vec && $k > 9000) { continue 2; }
                $y = 0;
                foreach (array_keys($m) as $q) { if ($y++ % $mod) { if ($set) { $o->remove($q); } else { unset($o[$q]); } unset($m[$q]); } }
                break;
            default:
                // removing while iterating
                if ($vec && $k > 9000 || $kind === 'sorted') { continue 2; }
                $y = 0;
                $seen = 0;
                foreach ($o as $q => $z) { $seen++; if ($y++ % 3) { if ($set) { $o->remove($z); unset($m[$z]); } else { unset($o[$q]); unset($m[$q]); } } }
                if ($seen !== $k) { $c->fail("large $cls: a loop that removes the current entry saw $seen of $k entries"); }
        }
        $c->say($say);
        $check($say);
    }
}

function large_heap(Src $s, Ctx $c, string $cls): void {
    $n = large_size($s);
    $step = $s->pick([1, 7919, 104729, -1]);
    $m = [];
    for ($i = 0; $i < $n; $i++) { $m[] = ($i * $step) % 50021; }
    $min = $cls === Teds\StrictMinHeap::class;
    $how = $s->int(3);
    if ($how === 0) { $o = new $cls($m); } elseif ($how === 1) { $o = new $cls(new ArrayIterator($m)); } else { $o = new $cls(); foreach ($m as $x) { $o->add($x); } }
    $c->say("$cls of $n ints, built $how, step $step");
    $c->label('large');
    $c->nt();
    $c->ops++;
    if ($s->int(3) === 2) { [$o, $d] = rebirth($s, $o); $c->say($d); }
    if ($min) { sort($m); } else { rsort($m); }
    if (count($o) !== $n) { $c->fail("large $cls: count() is " . count($o) . ", expected $n"); }
    $at = $s->int($n);
    $add = $s->int(2);
    for ($i = 0; $i < $n; $i++) {
        if ($i === $at && $add) { $o->add($m[$i]); if ($o->extract() !== $m[$i]) { $c->fail("large $cls: an added copy of the top is not extracted next"); } }
        $x = $o->extract();
        if ($x !== $m[$i]) { $c->fail("large $cls: element $i of $n is " . show($x) . ", expected {$m[$i]}"); }
    }
    if (count($o)) { $c->fail("large $cls: something is left"); }
}

function large_pairs(Src $s, Ctx $c, string $cls): void {
    $n = large_size($s);
    $m = [];
    for ($i = 0; $i < $n; $i++) { $m[] = [$i % 3 ? $i % 50 : "k$i", $i % 2 ? "v$i" : $i]; }
    $mut = $cls === Teds\MutableIterable::class;
    $how = $s->int(3);
    $gen = function () use ($m) { foreach ($m as [$k, $v]) { yield $k => $v; } };
    $o = $how === 0 && $cls !== Teds\CachedIterable::class ? $cls::fromPairs($m) : ($how === 1 && $mut ? new $cls() : new $cls($gen()));
    if ($how === 1 && $mut) { foreach ($m as [$k, $v]) { $o->push($k, $v); } }
    $c->say("$cls of $n pairs, built $how");
    $c->label('large');
    $c->nt();
    while ($s->more(5)) {
        $c->ops++;
        $k = count($m);
        $op = $s->pickw($mut ? ['at' => 3, 'copy' => 2, 'iterate' => 2, 'push' => 3, 'pop' => 3, 'size' => 2, 'set' => 3] : ['at' => 3, 'copy' => 2, 'iterate' => 2, 'iterator' => 2]);
        $c->doing = $op;
        $i = $k ? $s->int($k) : 0;
        switch ($op) {
            case 'at': if ($k && ($o->keyAt($i) !== $m[$i][0] || $o->valueAt($i) !== $m[$i][1])) { $c->fail("large $cls: pair $i is " . show([$o->keyAt($i), $o->valueAt($i)])); } break;
            case 'copy': [$o, $d] = rebirth($s, $o); break;
            case 'iterator': $it = $o->getIterator(); for ($x = 0; $x < min($i, 700); $x++) { $it->next(); } if ($k && [$it->key(), $it->current()] !== $m[min($i, 700)]) { $c->fail("large $cls: the iterator is on " . show([$it->key(), $it->current()])); } break;
            case 'iterate': $x = 0; foreach ($o as $y => $z) { if ($x >= $k || $m[$x] !== [$y, $z]) { $c->fail("large $cls: iteration step $x gives " . show([$y, $z])); } $x++; } if ($x !== $k) { $c->fail("large $cls: iterates $x of $k pairs"); } break;
            case 'push': for ($x = 0; $x < 300; $x++) { $o->push($x, "p$x"); $m[] = [$x, "p$x"]; } break;
            case 'pop': $y = $s->int(3) === 2 ? $k - $s->int(min($k, 300)) : $s->int(min($k, 300)); for (; $y > 0; $y--) { if ($o->pop() !== array_pop($m)) { $c->fail("large $cls: pop() returned another pair"); } } break;
            case 'size': $to = $s->int($k + 500); $o->setSize($to); $m = $to <= $k ? array_slice($m, 0, $to) : array_pad($m, $to, [null, null]); break;
            default: if ($k) { $o->setKeyAt($i, 'x'); $o->setValueAt($i, [1]); $m[$i] = ['x', [1]]; }
        }
        $c->say("$op $i");
    }
    if (count($o) !== count($m) || $o->toPairs() !== $m) { $c->fail("large $cls: toPairs() of " . count($m) . ' pairs is wrong'); }
}
/** @param string[] $classes */
function large_case(Src $s, Ctx $c, array $classes): void {
    $cls = $classes[$s->int(count($classes))];
    $c->label($cls);
    match (coll_kind($cls)) { 'seq' => large_seq($s, $c, $cls), 'heap' => large_heap($s, $c, $cls), 'pairs' => large_pairs($s, $c, $cls), default => large_assoc($s, $c, $cls) };
}
