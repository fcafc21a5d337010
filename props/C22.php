<?php
// Cost and size. In the "work" build the extension counts its basic blocks and the bytes it moves, so cost is exact and repeatable.
// The bounds are several times what any sensible implementation of the documented structure needs and a small fraction of what a degenerate one does.

function c22_log2(int $n): float { return log(max(2, $n + 1), 2); }

/** Iterators over $o that stay open, at random positions: none of the bounds may depend on them. */
function c22_iters(Src $s, Ctx $c, $o): array {
    if (!$s->chance(1, 3)) { return []; }
    $r = [];
    for ($k = 1 + $s->int(3); $k > 0; $k--) {
        $it = $o->getIterator();
        $n = count($o);
        $to = $s->pick([0, 0, $n ? $s->int(min($n, 400)) : 0, min($n, 400)]);
        for ($i = 0; $i < $to; $i++) { $it->next(); }
        $r[] = $it;
    }
    $c->say(count($r) . ' open iterators');
    return $r;
}

/** Vectors: K operations at the tail (deques: both ends) of a collection of about $n elements. */
function c22_ends(Src $s, Ctx $c): void {
    $cls = $s->pick([Teds\Vector::class, Teds\Deque::class, Teds\LowMemoryVector::class, Teds\IntVector::class, Teds\BitVector::class, Teds\MutableIterable::class, Teds\Deque::class]);
    $short = substr($cls, 5);
    $c->label($short);
    [$make, $width] = match ($cls) {
        Teds\BitVector::class => [fn($i) => ($i & 1) === 1, 0.125],
        Teds\IntVector::class => [[fn($i) => $i & 127, 1], [fn($i) => 300, 2], [fn($i) => 1 << 20, 4], [fn($i) => 1 << 40, 8]][$s->int(4)],
        Teds\LowMemoryVector::class => [[fn($i) => $i & 127, 1], [fn($i) => 1 << 20, 4], [fn($i) => 1.5, 8], [fn($i) => 'x', 16], [fn($i) => null, 1]][$s->int(5)],
        Teds\MutableIterable::class => [fn($i) => $i, 32],
        default => [fn($i) => $i, 16],
    };
    $pairs = $cls === Teds\MutableIterable::class;
    $deque = $cls === Teds\Deque::class;
    // about 160 KB of elements, so that copying them is expensive
    $n = (int)(($s->int(4) ? 160000 : 20000) / $width) + $s->int(3000);
    $vals = array_fill(0, (int)min($n, 40000), $make(1));
    switch ($cls === Teds\BitVector::class ? 1 : $s->int(3)) {
        case 0: $o = new $cls($vals); break;
        case 1:
            $o = new $cls();
            if ($cls === Teds\BitVector::class) { $o->setSize($n); break; }
            for ($i = count($vals); $i > 0; $i--) { if ($pairs) { $o->push(1, $make(1)); } else { $o->push($make(1)); } }
            break;
        default: $x = new $cls($vals); $o = clone $x; unset($x);
    }
    $n = count($o);
    $its = c22_iters($s, $c, $o);
    $K = 3000;
    $log = [];
    $done = 0;
    $grown = 0;
    $caps = [];
    $push = function (int $k) use ($o, $pairs, $make, $deque, $s) {
        if ($pairs) { for ($i = 0; $i < $k; $i++) { $o->push($i, $make($i)); } return; }
        $v = [];
        for ($i = 0; $i < $k; $i++) { $v[] = $make($i); }
        $o->push(...$v);
    };
    $w0 = vprobe_work();
    $max = $n;
    $changes = 0;
    $cap = $o->capacity();
    while ($done < $K) {
        $s->mark();
        $what = $s->pickw(['boundary+' => 3, 'boundary-' => 2, 'push' => 2, 'pop' => 2, 'alternate' => 5, 'chunks' => 2, 'append' => 2, 'rotate' => $deque ? 3 : 0, 'front' => $deque ? 3 : 0]);
        $len = 20 + $s->int(400);
        $c->say("$what $len, count " . count($o) . ', capacity ' . $o->capacity());
        switch ($what) {
            case 'boundary+': // up to the next growth
                $c0 = $o->capacity();
                for ($i = 0; $i < 6000 && $o->capacity() === $c0; $i++) { if ($deque && $i & 1) { $o->pushFront(1); } else { $push(1); } }
                $done += $i;
                break;
            case 'boundary-': // down to the next shrinking
                $c0 = $o->capacity();
                for ($i = 0; $i < 6000 && count($o) && $o->capacity() === $c0; $i++) { if ($deque && $i & 1) { $o->shift(); } else { $o->pop(); } }
                $done += $i;
                break;
            case 'push': for ($i = 0; $i < $len; $i++) { $push(1); } $done += $len; break;
            case 'pop': for ($i = 0; $i < $len && count($o); $i++) { $o->pop(); } $done += $len; break;
            case 'append': for ($i = 0; $i < $len; $i++) { if ($pairs) { $push(1); } else { $o[] = $make($i); } } $done += $len; break;
            case 'alternate': // back and forth around the present size
                $a = 1 + $s->int(3);
                $first = $s->int(2);
                for ($i = 0; $i < $len; $i++) {
                    if (($i + $first) & 1) { for ($j = 0; $j < $a && count($o); $j++) { if ($deque && ($i & 2)) { $o->shift(); } else { $o->pop(); } } }
                    else { for ($j = 0; $j < $a; $j++) { $push(1); } }
                }
                $done += $len * $a;
                break;
            case 'chunks': $a = 1 + $s->int(5); for ($i = 0; $i < $len; $i++) { $push($a); } $done += $len * $a; break;
            case 'rotate': for ($i = 0; $i < $len && count($o); $i++) { $o->push($o->shift()); if ($i & 1) { $o->pushFront($o->pop()); } } $done += 2 * $len; break;
            case 'front': for ($i = 0; $i < $len; $i++) { $o->pushFront($i); if ($i % 3 === 0) { $o->popFront(); } if ($i % 5 === 0) { $o->unshift($i, $i); } } $done += 2 * $len; break;
        }
        $max = max($max, count($o));
        if ($o->capacity() < count($o)) { $c->fail("$short: capacity {$o->capacity()} with " . count($o) . ' elements'); }
    }
    $c->ops += $done;
    $work = vprobe_work() - $w0;
    $bound = (90 + 30 * count($its)) * $done + (int)($max * $width) * 12 + 5000;     // a few copies of everything, even byte by byte
    $c->say("work $work for $done operations, bound $bound");
    if ($work > $bound) { $c->fail("$short: $done operations at the ends of $n..$max elements took $work units of work (allowed $bound): not amortized constant time"); }
}

/** Growth by single pushes: how often the capacity changes, and how far ahead it runs. */
function c22_growth(Src $s, Ctx $c): void {
    $cls = $s->pick([Teds\Vector::class, Teds\Deque::class, Teds\LowMemoryVector::class, Teds\IntVector::class, Teds\BitVector::class, Teds\MutableIterable::class, Teds\SortedIntVectorSet::class]);
    $short = substr($cls, 5);
    $c->label($short);
    $o = new $cls($cls === Teds\BitVector::class ? array_fill(0, $s->int(9), true) : ($s->int(5) ? range(0, $s->int(7)) : []));
    $its = c22_iters($s, $c, $o);
    $how = $s->int(8);
    $n = 2000 + $s->int($how < 5 || $how === 7 ? 8000 : 1500);
    $chunk = 1 + $s->int(3);
    $many = match ($cls) { Teds\IntVector::class => 'pushInts', Teds\BitVector::class => 'pushBits', default => 'push' };
    $caps = 0;
    $last = $o->capacity();
    $worst = 0;
    for ($i = 0; $i < $n; $i += $chunk) {
        $v = $cls === Teds\BitVector::class ? true : 1000 + $i;
        switch (true) {
            case $cls === Teds\SortedIntVectorSet::class: $o->add($v); break;
            case $cls === Teds\MutableIterable::class: $o->push($v, $v); break;
            case $how === 1: $o[] = $v; break;
            case $how === 2 && $cls === Teds\Deque::class: $o->pushFront($v); break;
            case $how === 3: $o->push(...array_fill(0, $chunk, $v)); break;
            case $how === 4: $o->insert(count($o), ...array_fill(0, $chunk, $v)); break;
            case $how === 5: $o->insert(count($o) >> 1, ...array_fill(0, $chunk, $v)); break;
            case $how === 6: $o->pushFront(...array_fill(0, $chunk, $v)); break;
            case $how === 7: $o->$many(...array_fill(0, $chunk, $v)); break;
            default: $o->push($v);
        }
        $x = $o->capacity();
        if ($x !== $last) { $caps++; $last = $x; }
        if ($x < count($o)) { $c->fail("$short: capacity $x with " . count($o) . ' elements'); }
        if ($x > 4 * count($o) + 128) { $c->fail("$short: capacity $x after growing to only " . count($o) . ' elements'); }
    }
    $c->ops += $n;
    $max = (int)(log($n) / log(1.2)) + 16;
    if ($caps > $max) { $c->fail("$short: the capacity changed $caps times while growing to " . count($o) . " elements (geometric growth needs at most $max)"); }
}

/** Hash collections under churn. */
function c22_churn(Src $s, Ctx $c): void {
    $cls = $s->pick([Teds\StrictHashMap::class, Teds\StrictHashSet::class]);
    $short = substr($cls, 5);
    $c->label($short);
    $map = $cls === Teds\StrictHashMap::class;
    $w = $s->pick([0, 1, 2, 7, 8, 9, 60, 500, 3000]);
    $kind = $s->int(4);
    $key = match ($kind) { 0 => fn($i) => $i, 1 => fn($i) => "key$i", 2 => fn($i) => $i + 0.5, 3 => fn($i) => ($i * 2654435761) & 0xffffffff };
    $K = 4000;
    gc_collect_cycles();
    $o = new $cls();
    $put = $map ? function ($k) use ($o) { $o[$k] = 1; } : function ($k) use ($o) { $o->add($k); };
    $del = $map ? function ($k) use ($o) { unset($o[$k]); } : function ($k) use ($o) { $o->remove($k); };
    for ($i = 0; $i < $w; $i++) { $put($key($i)); }
    $lo = 0;
    $hi = $w;
    $live = $w;
    $max = $w;
    $pattern = $s->pick(['fifo', 'lifo', 'same', 'cycle', 'random', 'foreach', 'overwrite', 'heldit', 'drain']);
    $c->say("$pattern, $w entries, key kind $kind");
    $w0 = vprobe_work();
    $its = $pattern === 'heldit' ? [$o->getIterator()] : c22_iters($s, $c, $o);
    $w0 = vprobe_work();
    $ring = 1 + $s->int(40);
    switch ($pattern) {
        case 'heldit': case 'fifo': for ($i = 0; $i < $K; $i++) { $put($key($hi++)); $del($key($lo++)); } $max = $w + 1; break;
        case 'drain': // removes most of the entries in a loop over them
            $keep = $s->pick([-1, 0, 1, 5, intdiv($w, 2), $w - 1]);
            $every = $s->pick([0, 0, 2, 3, 20]);
            $n = 0;
            foreach ($o as $k => $v) { if ($n !== $keep && ($every === 0 || $n % $every)) { $del($k); } $n++; }
            if ($n !== $w) { $c->fail("$short: a loop over $w entries that removes the current one saw $n"); }
            break;
        case 'lifo': for ($i = 0; $i < $K; $i++) { $put($key($hi)); $del($key($hi)); $hi++; } $max = $w + 1; break;
        case 'same': for ($i = 0; $i < $K; $i++) { $put($key(999999)); $del($key(999999)); } $max = $w + 1; break;
        case 'cycle': for ($i = 0; $i < $K; $i++) { $put($key(100000 + $i % $ring)); if ($i >= $ring >> 1) { $del($key(100000 + ($i - ($ring >> 1)) % $ring)); } } $max = $w + $ring + 1; break;
        case 'overwrite': for ($i = 0; $i < $K; $i++) { $put($key($w ? $i % $w : 0)); $put($key(777777)); } $max = $w + 2; break;
        case 'random':
            $x = $s->int(1000) + 1;
            for ($i = 0; $i < $K; $i++) { $x = ($x * 1103515245 + 12345) & 0x7fffffff; if (($x >> 8) & 1 || count($o) === 0) { $put($key($hi++)); $max = max($max, count($o)); } else { $del($key(--$hi)); } }
            break;
        case 'foreach': // a work list: the loop over it removes and adds
            $put($key($hi++));
            $i = 0;
            foreach ($o as $k => $v) { $del($k); if ($i++ < $K) { $put($key($hi++)); } }
            $max = $w + 2;
            break;
    }
    $work = vprobe_work() - $w0;
    $nit = count($its);
    $its = null;
    $c->ops += 2 * $K;
    $bound = (400 + 200 * $nit) * $K + 40 * ($max + 64) * 8;
    if (vprobe_work() >= 0 && $work > $bound) { $c->fail("$short: $K rounds of $pattern with at most $max entries took $work units of work (allowed $bound)"); }
    // lookups and iteration pay only for what is there
    $w0 = vprobe_work();
    $n = 0;
    foreach ($o as $v) { $n++; }
    if (vprobe_work() - $w0 > 60 * (8 * $max + 128)) { $c->fail("$short: iterating over $n entries took " . (vprobe_work() - $w0) . " units of work after $pattern with at most $max entries"); }
    $w0 = vprobe_work();
    for ($i = 0; $i < 200; $i++) { $map ? $o->containsKey($key($hi - $i)) : $o->contains($key($hi - $i)); }
    if (vprobe_work() - $w0 > 200 * 150) { $c->fail("$short: 200 lookups took " . (vprobe_work() - $w0) . ' units of work'); }
    // what it holds is what its destruction gives back (memory used at large also grows in steps that PHP itself takes)
    $allowed = (8 * $max + 256) * 64 + 16384 + ($kind === 1 ? 64 * $max : 0);
    unset($put, $del, $k, $v);
    $mem = memory_get_usage();
    $o = null;
    $mem -= memory_get_usage();
    if ($mem > $allowed) { $c->fail("$short: holds $mem bytes after $K rounds of $pattern with at most $max entries (allowed $allowed): it keeps growing"); }
}

function c22_depth($t): int {
    // the nested representation of a tree; deepest chain of nodes
    if (!is_array($t)) { return 0; }
    $d = 0;
    foreach ($t as $k => $x) { if ($k === 'left' || $k === 'right') { $d = max($d, c22_depth($x)); } }
    return $d + 1;
}
/** Trees: depth and cost per operation after hostile orders of insertion and removal. */
function c22_tree(Src $s, Ctx $c): void {
    $cls = $s->pick([Teds\StrictTreeMap::class, Teds\StrictTreeSet::class]);
    $short = substr($cls, 5);
    $c->label($short);
    $map = $cls === Teds\StrictTreeMap::class;
    $n = $s->pick([3, 10, 40, 200, 1000, 2500]);
    $o = new $cls();
    $put = $map ? function ($k) use ($o) { $o[$k] = 1; } : function ($k) use ($o) { $o->add($k); };
    $del = $map ? function ($k) use ($o) { unset($o[$k]); } : function ($k) use ($o) { $o->remove($k); };
    $order = function (int $a, int $b) use ($s): array {
        $r = $b > $a ? range($a, $b - 1) : [];
        switch ($s->pick(['up', 'down', 'zigzag', 'random', 'inside', 'blocks'])) {
            case 'down': return array_reverse($r);
            case 'zigzag': $q = []; while ($r) { $q[] = array_shift($r); if ($r) { $q[] = array_pop($r); } } return $q;
            case 'random': $x = $s->int(1000); usort($r, fn($p, $q) => crc32("$x$p") <=> crc32("$x$q")); return $r;
            case 'inside': $q = []; while ($r) { array_unshift($q, array_shift($r)); if ($r) { array_unshift($q, array_pop($r)); } } return $q;
            case 'blocks': $q = array_chunk($r, 7); $z = []; foreach ($q as $i => $b) { array_push($z, ...($i & 1 ? array_reverse($b) : $b)); } return $z;
            default: return $r;
        }
    };
    $steps = 1 + $s->int(4);
    $what = [];
    $live = 0;
    $w0 = vprobe_work();
    $cnt = 0;
    $its = [];
    for ($j = 0; $j < $steps; $j++) {
        $s->mark();
        if (!$its) { $its = c22_iters($s, $c, $o); $cnt += 400 * count($its); }
        $a = $s->int($n);
        $b = $a + 1 + $s->int($n);
        $add = $j === 0 || $s->int(5) < 3;
        $c->say(($add ? 'add' : 'remove') . " $a..$b");
        $l = $order($a, $b);
        foreach ($l as $k) { if ($add) { $put($k); } else { $del($k); } $cnt++; }
        if ($s->int(3) === 0) { for ($i = $s->int(30); $i > 0 && count($o); $i--) { $i & 1 ? $o->pop() : $o->shift(); $cnt++; } }
        if ($s->int(6) === 0) { $p = clone $o; if (!$p->debugIsBalanced()) { $c->fail("$short: a clone is not balanced"); } }
    }
    $work = vprobe_work() - $w0;
    $c->ops += $cnt;
    $m = count($o);
    if ($m > 2) { $c->nt(); }
    $lg = c22_log2(max($n * 2, $m));
    if (vprobe_work() >= 0 && $work > $cnt * (60 * $lg + 200 + 40 * count($its)) + 2000) { $c->fail("$short: $cnt insertions and removals took $work units of work"); }
    if (!$o->debugIsBalanced()) { $c->fail("$short: not a balanced red-black tree with $m nodes"); }
    $d = c22_depth($o->debugGetTreeRepresentation());
    if ($d > 2 * c22_log2($m) + 1) { $c->fail("$short: $m nodes are $d levels deep"); }
    if ($m && vprobe_work() >= 0) {
        $w0 = vprobe_work();
        for ($i = 0; $i < 100; $i++) { $k = ($i * 7919) % (2 * $n); $map ? $o->containsKey($k) : $o->contains($k); }
        $work = vprobe_work() - $w0;
        if ($work > 100 * (50 * c22_log2($m) + 150)) { $c->fail("$short: 100 lookups among $m took $work units of work"); }
        $w0 = vprobe_work();
        foreach ($o as $v) { }
        $work = vprobe_work() - $w0;
        if ($work > 80 * $m + 2000) { $c->fail("$short: iterating over $m took $work units of work"); }
    }
}

/** Sorted vectors and heaps: logarithmic lookups, additions and extractions. */
function c22_log(Src $s, Ctx $c): void {
    if (vprobe_work() < 0) { return; }
    $n = 500 + $s->int(6000);
    $cls = $s->pick([Teds\StrictSortedVectorMap::class, Teds\StrictSortedVectorSet::class, Teds\SortedIntVectorSet::class, Teds\ImmutableSortedIntSet::class, Teds\ImmutableSortedStringSet::class, Teds\StrictMinHeap::class, Teds\StrictMaxHeap::class]);
    $short = substr($cls, 5);
    $c->label($short);
    $step = 1 + $s->int(3);
    $str = $cls === Teds\ImmutableSortedStringSet::class;
    $vals = [];
    for ($i = 0; $i < $n; $i++) { $vals[] = $str ? sprintf('%08d', $i * $step) : $i * $step; }
    if ($s->int(2)) { $x = $s->int(100); usort($vals, fn($a, $b) => crc32("$x$a") <=> crc32("$x$b")); }
    $lg = c22_log2($n);
    if ($cls === Teds\StrictMinHeap::class || $cls === Teds\StrictMaxHeap::class) {
        $o = new $cls();
        $w0 = vprobe_work();
        $ops = 0;
        foreach ($vals as $i => $v) { $o->add($v); $ops++; if ($i % 5 === 4) { $o->extract(); $ops++; } }
        for ($i = 0; $i < 300; $i++) { $o->extract(); $o->add($i); $ops += 2; }
        while (count($o)) { $o->extract(); $ops++; }
        $work = vprobe_work() - $w0;
        $c->ops += $ops;
        if ($work > $ops * (50 * $lg + 150) + 8 * $n) { $c->fail("$short: $ops additions and extractions on up to $n elements took $work units of work"); }
        return;
    }
    $o = $cls === Teds\StrictSortedVectorMap::class ? Teds\StrictSortedVectorMap::fromPairs(array_map(fn($v) => [$v, $v], $vals)) : new $cls($vals);
    $w0 = vprobe_work();
    for ($i = 0; $i < 300; $i++) {
        $k = ($i * 7919) % ($n * $step + 5);
        if ($str) { $k = sprintf('%08d', $k); }
        $cls === Teds\StrictSortedVectorMap::class ? $o->containsKey($k) : $o->contains($k);
        if ($i % 10 === 0 && $cls === Teds\StrictSortedVectorMap::class) { $o->get($k, null); isset($o[$k]); }
    }
    $work = vprobe_work() - $w0;
    $c->ops += 300;
    if ($work > 300 * (60 * $lg + 200)) { $c->fail("$short: 300 lookups among $n took $work units of work"); }
}

/** Bytes needed by the widest of these values, in memory. */
function c22_width(array $vals, string $cls): float {
    if ($cls === Teds\BitVector::class) { return 0.125; }
    $kinds = [];
    $w = 1;
    foreach ($vals as $v) {
        if (is_int($v)) { $kinds['i'] = 1; $w = max($w, $v >= -128 && $v <= 127 ? 1 : ($v >= -32768 && $v <= 32767 ? 2 : ($v >= -2147483648 && $v <= 2147483647 ? 4 : 8))); }
        elseif (is_float($v)) { $kinds['f'] = 1; $w = max($w, 8); }
        elseif ($v === null || is_bool($v)) { $kinds['b'] = 1; }
        else { $kinds['z'] = 1; }
    }
    return isset($kinds['z']) || count($kinds) > 1 ? 16 : $w;
}
/** Compact collections: bytes per element in memory and serialized. */
function c22_bytes(Src $s, Ctx $c): void {
    $cls = $s->pick([Teds\IntVector::class, Teds\LowMemoryVector::class, Teds\BitVector::class, Teds\SortedIntVectorSet::class, Teds\ImmutableSortedIntSet::class]);
    $short = substr($cls, 5);
    $c->label($short);
    $kind = $cls === Teds\BitVector::class ? 'b' : ($cls === Teds\LowMemoryVector::class ? $s->pick(['i8', 'i16', 'i32', 'i64', 'f', 'b', 'nb', 'n', 'mix']) : $s->pick(['i8', 'i16', 'i32', 'i64']));
    $b = ['i8' => 127, 'i16' => 32767, 'i32' => 2147483647, 'i64' => PHP_INT_MAX][$kind] ?? 0;
    $gen = function (int $i) use ($kind, $b, $s) {
        switch ($kind) {
            case 'b': return ($i * 7 & 4) !== 0;
            case 'n': return null;
            case 'nb': return [null, true, false][$i % 3];
            case 'f': return $i + 0.5;
            case 'mix': return $i % 5 ? $i : "s";
            default: return $i % 97 === 1 ? $b : ($i % 89 === 2 ? -$b - 1 : $i % 120 - 60);
        }
    };
    $n = $s->pick([3000, 5000, 9000]) + $s->int(500);
    if ($cls === Teds\BitVector::class) { $n *= 16; }
    if (coll_kind($cls) === 'sorted') { // needs distinct members
        if ($kind === 'i8') { $kind = 'i16'; $b = 32767; }
        $gen = fn($i) => $i === 1 ? $b : ($i === 2 ? -$b - 1 : $i * ($kind === 'i16' ? 1 : 3) - 5000);
    }
    $vals = [];
    for ($i = 0; $i < $n; $i++) { $vals[] = $gen($i); }
    $width = c22_width($vals, $cls);
    $how = $s->pick(['array', 'gen', 'push', 'clone', 'unserialize', 'refused', 'set_state']);
    if (coll_kind($cls) === 'sorted' && ($how === 'push' || $how === 'refused')) { $how = 'array'; }
    $c->say("$short $kind $how n=$n");
    $o = match ($how) {
        'array' => new $cls($vals),
        'set_state' => $cls::__set_state($vals),
        'gen' => new $cls((function () use (&$vals) { foreach ($vals as $v) { yield $v; } })()),
        'push' => (function () use ($cls, &$vals) { $o = new $cls(); foreach ($vals as $v) { $o->push($v); } return $o; })(),
        'clone' => (function () use ($cls, &$vals) { $x = new $cls($vals); return clone $x; })(),
        'unserialize' => unserialize(serialize(new $cls($vals))),
        // values that are refused must leave no trace
        'refused' => (function () use ($cls, &$vals) {
            $o = new $cls($vals);
            $wide = $cls === Teds\BitVector::class ? true : ($cls === Teds\IntVector::class ? PHP_INT_MAX : 'wide');
            foreach ([fn() => $o->insert(-1, $wide), fn() => $o->set(count($o), $wide), fn() => $o[count($o)] = $wide, fn() => $o->offsetSet(-1, $wide), fn() => $o->insert(count($o) + 1, $wide, $wide), fn() => $cls === Teds\IntVector::class && $o->insert(1, $wide, 'x'), fn() => $cls === Teds\IntVector::class && $o->pushFront($wide, 'x')] as $f) {
                try { $f(); } catch (Throwable) { }
            }
            $o->contains($wide);
            $o->indexOf($wide);
            return $o;
        })(),
    };
    $c->ops++;
    $c->nt();
    if (count($o) !== $n) { return; }           // other properties' business
    $cap = method_exists($o, 'capacity') ? $o->capacity() : ($how === 'gen' ? 2 * $n : $n);
    if ($cap > 4 * $n + 256) { $c->fail("$short: capacity $cap for $n elements"); }
    if ($how !== 'push' && $how !== 'gen' && $how !== 'refused' && $cap > 2 * $n + 256) { $c->fail("$short: capacity $cap for $n elements"); }
    if ($kind !== 'mix') {
        $len = strlen(serialize($o));
        $sw = $kind === 'n' || $kind === 'nb' || ($kind === 'b' && $cls !== Teds\BitVector::class) ? 0.25 : $width;
        if ($len > $n * $sw + 200) { $c->fail("$short: $n elements that need $sw bytes each take $len bytes serialized"); }
    }
    // what it holds is what its destruction gives back
    $allowed = (int)($cap * $width) + 9000;
    $mem = memory_get_usage();
    $o = null;
    $mem -= memory_get_usage();
    if ($mem > $allowed) { $c->fail("$short: $n elements that need $width bytes each take $mem bytes with capacity $cap (allowed $allowed)"); }
}
/** Work on a whole collection: linear in its size (times a logarithm where elements are put in order). */
function c22_bulk(Src $s, Ctx $c): void {
    if (vprobe_work() < 0) { return; }
    $cls = $s->pick(ALL_CLASSES);
    $short = substr($cls, 5);
    $c->label($short);
    $n = 1500 + $s->int(6000);
    $order = $s->pick(['up', 'down', 'random', 'organ', 'few']);
    $x = 1 + $s->int(1000);
    $vals = [];
    for ($i = 0; $i < $n; $i++) {
        $v = match ($order) { 'up' => $i, 'down' => $n - $i, 'random' => (($i + $x) * 2654435761) & 0xffffff, 'organ' => $i & 1 ? $i : 2 * $n - $i, 'few' => ($i * 7) % 50 };
        $vals[] = match ($cls) { Teds\BitVector::class => ($v & 4) !== 0, Teds\ImmutableSortedStringSet::class => "k$v", default => $v };
    }
    $kind = coll_kind($cls);
    $map = $kind === 'map';
    $sorts = $kind === 'heap' || $kind === 'sorted' || (($map || $kind === 'set') && !str_contains($cls, 'Hash'));
    $lg = c22_log2($n);
    $build = $sorts ? 60 * $lg + 150 : 150;
    // one insertion at a time moves the later entries of a sorted vector
    $how = $map ? ($cls === Teds\StrictSortedVectorMap::class ? 'flip' : $s->pick(['flip', 'pairs'])) : $s->pick(['array', 'gen', 'agg']);
    $c->say("$short from $how of $n, $order");
    $flip = function () use ($vals) { foreach ($vals as $v) { yield $v => 1; } };
    $pairs = [];
    if ($how === 'pairs') { foreach ($vals as $v) { $pairs[] = [$v, 1]; } }
    $meter = function (string $what, float $per, callable $f) use ($c, $short, $n) {
        $w0 = vprobe_work();
        $r = $f();
        $work = vprobe_work() - $w0;
        $c->ops++;
        if ($work > $per * $n + 3000) { $c->fail("$short: $what of $n elements took $work units of work (allowed " . (int)($per * $n + 3000) . ')'); }
        return $r;
    };
    $o = $meter($how, $build, match ($how) {
        'flip' => fn() => $cls === Teds\StrictSortedVectorMap::class ? new $cls(array_fill_keys($vals, 1)) : new $cls($flip()),
        'pairs' => fn() => $cls::fromPairs($pairs),
        'array' => fn() => new $cls($vals),
        'gen' => fn() => new $cls((function () use ($vals) { foreach ($vals as $v) { yield $v; } })()),
        'agg' => fn() => new $cls(new ArrayObject($vals)),
    });
    count($o);
    $elem = $o instanceof Teds\BitVector ? true : ($o instanceof Teds\ImmutableSortedStringSet ? 'zz' : -1);
    for ($i = 1 + $s->int(6); $i > 0; $i--) {
        $s->mark();
        $what = $s->pick(['clone', 'foreach', 'toArray', 'values', 'keys', 'toPairs', 'serialize', 'unserialize', 'json', 'export', 'cast', 'contains', 'indexOf', 'map', 'filter', 'unique', 'fold', 'getIterator', 'clear']);
        if ($what === 'clone' && $cls === Teds\CachedIterable::class || $what === 'foreach' && $kind === 'heap' || method_exists(Teds\Vector::class, $what) && !method_exists($o, $what)) { continue; }
        $c->say($what);
        switch ($what) {
            case 'clone': $o = $meter($what, 60, fn() => clone $o); break;
            case 'foreach': $meter($what, 90, function () use ($o) { foreach ($o as $k => $v) { } }); break;
            case 'getIterator': $meter('iterator', $kind === 'heap' ? 60 * $lg + 200 : 120, function () use ($o, $kind) { $o = $kind === 'heap' ? clone $o : $o; $it = $o->getIterator(); while ($it->valid()) { $it->current(); $it->next(); } }); break;
            case 'toArray': case 'values': case 'keys': case 'toPairs': if (method_exists($o, $what)) { $meter($what, 60, fn() => $o->$what()); } break;
            case 'serialize': $meter($what, 60, fn() => serialize($o)); break;
            case 'unserialize': $x = serialize($o); $o = $meter($what, $build, fn() => unserialize($x)); break;
            case 'json': $meter($what, 60, fn() => json_encode($o)); break;
            case 'export': $meter($what, 60, fn() => var_export($o, true)); break;
            case 'cast': $meter($what, 60, fn() => (array)$o); break;
            case 'contains': $meter($what, 40, fn() => $o->contains($elem)); break;
            case 'indexOf': if (method_exists($o, 'indexOf')) { $meter($what, 40, fn() => $o->indexOf($elem)); } break;
            case 'map': if (method_exists($o, 'map')) { $meter($what, 60, fn() => $o->map(fn($v) => $v)); } break;
            case 'filter': if (method_exists($o, 'filter')) { $meter($what, 60, fn() => $o->filter(fn($v) => true)); } break;
            case 'unique': $meter('Teds\\unique_values', 200 + ($kind === 'heap' ? 60 * $lg : 0), fn() => Teds\unique_values($kind === 'heap' ? clone $o : $o)); break;
            case 'fold': $meter('Teds\\fold', 150 + ($kind === 'heap' ? 60 * $lg : 0), fn() => Teds\fold($kind === 'heap' ? clone $o : $o, fn($a, $b) => 1, 0)); break;
            case 'clear': if (!coll_immutable($cls)) { $p = $o; $meter($what, 40, fn() => $o->clear()); $i = 0; } break;
        }
    }
}
/** Building element by element moves each element a bounded number of times on average: bytes moved or (re)allocated, against the bytes the elements need. */
function c22_moved(Src $s, Ctx $c): void {
    if (vprobe_bytes() < 0) { return; }
    $widths = [Teds\Vector::class => 16, Teds\Deque::class => 16, Teds\LowMemoryVector::class => 16, Teds\IntVector::class => 8, Teds\BitVector::class => 0.125, Teds\MutableIterable::class => 32, Teds\SortedIntVectorSet::class => 8,
        Teds\StrictSortedVectorSet::class => 16, Teds\StrictSortedVectorMap::class => 32, Teds\StrictMinHeap::class => 16, Teds\StrictMaxHeap::class => 16, Teds\StrictHashSet::class => 32, Teds\StrictHashMap::class => 48, Teds\StrictTreeSet::class => 64,
        Teds\StrictTreeMap::class => 80, Teds\CachedIterable::class => 32, Teds\ImmutableSequence::class => 16, Teds\ImmutableIterable::class => 32, Teds\ImmutableSortedIntSet::class => 8, Teds\ImmutableSortedStringSet::class => 16];
    $cls = $s->pick(array_keys($widths));
    $short = substr($cls, 5);
    $c->label($short);
    $kind = coll_kind($cls);
    $bits = $cls === Teds\BitVector::class;
    $n = ($bits ? 60000 : 4000) + $s->int(6000);
    // ascending, because an insertion in the middle of a sorted vector moves the later entries
    $top = $s->pick([$n, 1 << 20, 1 << 40]);
    $v = fn(int $i) => match (true) { $bits => $i % 3 === 0, $cls === Teds\ImmutableSortedStringSet::class => sprintf('%06d', $i), default => $i + $top };
    $routes = ['gen'];
    if (!coll_immutable($cls)) { array_push($routes, ...match ($kind) { 'seq' => ['push', 'pushes', 'append', 'insert', 'inserts', 'many', ...($cls === Teds\Deque::class ? ['front', 'fronts'] : [])], 'pairs' => ['pair'], 'map' => ['put', 'pairs'], default => ['add'] }); }
    if ($cls === Teds\StrictSortedVectorMap::class) { array_splice($routes, 0, 1); }
    $route = $s->pick($routes);
    $many = match ($cls) { Teds\IntVector::class => 'pushInts', Teds\BitVector::class => 'pushBits', default => 'push' };
    $chunk = in_array($route, ['pushes', 'inserts', 'fronts', 'many'], true) ? 2 + $s->int(4) : 1;
    $pairs = [];
    if ($route === 'pairs') { for ($i = 0; $i < $n; $i++) { $pairs[] = [$v($i), $i]; } }
    $start = $s->int(3);
    $b0 = vprobe_bytes();
    if ($route === 'gen') { $o = new $cls((function () use ($n, $v) { for ($i = 0; $i < $n; $i++) { yield $v($i); } })()); count($o); }
    elseif ($route === 'pairs') { $o = $cls::fromPairs($pairs); }
    else {
        $o = new $cls();
        if ($start) {
            // goes on after something else decided the capacity
            $first = [];
            for ($i = -40; $i < 0; $i++) { if ($kind === 'map') { $first[$i] = 1; } else { $first[] = $bits ? true : $i; } }
            $o = new $cls($first);
            if ($start === 2) { $o = $s->int(2) ? clone $o : unserialize(serialize($o)); }
        }
        $its = $kind === 'heap' ? [] : c22_iters($s, $c, $o);
        for ($i = 0; $i < $n; $i += $chunk) {
            $x = $v($i);
            switch ($route) {
                case 'push': $o->push($x); break;
                case 'append': $o[] = $x; break;
                case 'insert': $o->insert(count($o), $x); break;
                case 'front': $o->pushFront($x); break;
                case 'pushes': $o->push(...array_fill(0, $chunk, $x)); break;
                case 'many': $o->$many(...array_fill(0, $chunk, $x)); break;
                case 'inserts': $o->insert(count($o), ...array_fill(0, $chunk, $x)); break;
                case 'fronts': $o->pushFront(...array_fill(0, $chunk, $x)); break;
                case 'pair': $o->push($x, $i); break;
                case 'put': $o[$x] = $i; break;
                case 'add': $o->add($x); break;
            }
        }
    }
    $moved = vprobe_bytes() - $b0;
    $c->ops += $n;
    $allowed = (int)(16 * $n * $widths[$cls]) + 16384;
    $c->say("$short by $route in chunks of $chunk: $moved bytes for $n elements, allowed $allowed");
    if ($moved > $allowed) { $c->fail("$short: adding $n elements ($route, $chunk at a time) moved or allocated $moved bytes (allowed $allowed): the storage does not grow geometrically"); }
}
/** Sequences give memory back as elements are removed, however they are removed. */
function c22_shrink(Src $s, Ctx $c): void {
    $cls = $s->pick([Teds\Vector::class, Teds\Deque::class, Teds\LowMemoryVector::class, Teds\IntVector::class, Teds\BitVector::class, Teds\MutableIterable::class, Teds\SortedIntVectorSet::class]);
    $short = substr($cls, 5);
    $c->label($short);
    if ($cls === Teds\MutableIterable::class || $cls === Teds\SortedIntVectorSet::class) {
        $n = $s->pick([100, 800, 3000]) + $s->int(200);
        $o = new $cls();
        for ($i = 0; $i < $n; $i++) { if ($cls === Teds\MutableIterable::class) { $o->push($i, $i); } else { $o->add($i * 3); } }
        if ($s->int(3) === 2) { $o = rebirth($s, $o)[0]; }
        $its = c22_iters($s, $c, $o);
        while ($s->more(5) && count($o) > 1) {
            $to = $s->int(count($o));
            $op = $s->pick($cls === Teds\MutableIterable::class ? ['pop', 'setSize'] : ['pop', 'remove', 'removefirst']);
            $c->say("$op down to $to");
            while (($k = count($o)) > $to) {
                match ($op) { 'pop' => $o->pop(), 'setSize' => $o->setSize($to), 'remove' => $o->remove($o->get($s->int($k))), default => $o->remove($o->first()) };
                $c->ops++;
            }
            if ($o->capacity() > 8 * $to + 512) { $c->fail("$short: keeps capacity " . $o->capacity() . " when $op has removed all but $to of $n elements"); }
        }
        return;
    }
    $kind = $cls === Teds\BitVector::class ? 'b' : ($cls === Teds\IntVector::class ? $s->pick(['i8', 'i16', 'i64']) : $s->pick(['i8', 'i16', 'i64', 'n', 'f', 's']));
    $gen = fn(int $i) => match ($kind) { 'b' => $i % 3 > 0, 'i8' => $i % 100, 'i16' => $i % 30000, 'i64' => $i << 40, 'n' => null, 'f' => $i + 0.5, 's' => 'str' };
    $n = $s->pick([100, 800, 3000]) + $s->int(200);
    $vals = [];
    for ($i = 0; $i < $n; $i++) { $vals[] = $gen($i); }
    $how = $s->pick(['array', 'push', 'rebirth', 'front']);
    $o = $how === 'array' || $how === 'rebirth' ? new $cls($vals) : new $cls();
    if ($how === 'push') { foreach ($vals as $v) { $o->push($v); } }
    if ($how === 'front') { for ($i = 0; $i < $n; $i += 100) { $o->unshift(...array_slice($vals, $i, 100)); } }
    if ($how === 'rebirth') { $o = rebirth($s, $o)[0]; }
    $c->say("$short of $n ($kind), built $how");
    $width = $cls === Teds\Vector::class || $cls === Teds\Deque::class ? 16 : c22_width($vals, $cls);
    unset($vals, $v);
    $its = c22_iters($s, $c, $o);
    while ($s->more(5) && count($o) > 1) {
        $to = $s->int(count($o));
        $op = $s->pick(['pop', 'shift', 'unsetlast', 'unsetfirst', 'unsetmid', 'both', method_exists($o, 'setSize') ? 'setSize' : 'pop']);
        $c->say("$op down to $to");
        while (($k = count($o)) > $to) {
            switch ($op) {
                case 'pop': $o->pop(); break;
                case 'shift': $o->shift(); break;
                case 'unsetlast': unset($o[$k - 1]); break;
                case 'unsetfirst': unset($o[0]); break;
                case 'unsetmid': unset($o[$k >> 1]); break;
                case 'both': $k & 1 ? $o->pop() : $o->shift(); break;
                default: $o->setSize($to);
            }
            $c->ops++;
            if ($k % 64 === 0 && $o->capacity() > 8 * $k + 512) { $c->fail("$short: keeps capacity " . $o->capacity() . " when $op has removed all but $k of $n elements"); }
        }
        if ($o->capacity() > 8 * $to + 512) { $c->fail("$short: keeps capacity " . $o->capacity() . " when $op has removed all but $to of $n elements"); }
        if ($s->chance(1, 4)) { for ($i = $s->int(50); $i > 0; $i--) { $o->push($gen($i)); } }
    }
    $its = null;
    $k = count($o);
    $allowed = (int)((8 * $k + 512) * max($width, 0.25)) + 1000;
    $mem = memory_get_usage();
    $o = null;
    $mem -= memory_get_usage();
    if ($mem > $allowed) { $c->fail("$short: $k elements left of $n take $mem bytes (allowed $allowed)"); }
}
return function (Src $s, Ctx $c): void {
    $c->nt();
    switch ($s->pickw(['moved' => 3, 'shrink' => 3, 'ends' => 3, 'growth' => 3, 'churn' => 5, 'tree' => 5, 'log' => 2, 'bytes' => 3, 'bulk' => 5])) {
        case 'ends': if (vprobe_work() >= 0) { c22_ends($s, $c); } break;
        case 'growth': c22_growth($s, $c); break;
        case 'shrink': c22_shrink($s, $c); break;
        case 'moved': c22_moved($s, $c); break;
        case 'churn': c22_churn($s, $c); break;
        case 'tree': c22_tree($s, $c); break;
        case 'log': c22_log($s, $c); break;
        case 'bulk': c22_bulk($s, $c); break;
        case 'bytes': c22_bytes($s, $c); break;
    }
};
