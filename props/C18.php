<?php
// binary_search against a linear scan with the same comparison.
/** A string that can refuse to be read. */
final class Str18 {
    public int $calls = 0;
    public int $throwAt = -1;
    public function __construct(private string $t) {}
    public function __toString(): string {
        if ($this->calls++ === $this->throwAt) { throw new UserError('from __toString()'); }
        return $this->t;
    }
}
return function (Src $s, Ctx $c): void {
    $big = $s->chance(1, 10);
    $n = $s->size($big ? 3000 : 40);
    $useKey = $s->chance(1, 3);
    $what = $s->pick(['int', 'int', 'float', 'num', 'str', 'bytes', 'arr', 'obj']);
    $mkElem = function () use ($s, $what, $n) {
        return match ($what) {
            'int' => $s->chance(1, 5) ? gen_int($s) : $s->range(-1, $n * 2 + 1),
            'float' => ($f = gen_float($s)) === $f ? ($s->chance(1, 2) ? $f : $s->int($n * 4 + 1) / 2) : 0.5,
            'num' => $s->chance(1, 2) ? $s->int($n + 2) : $s->int(2 * $n + 2) / 2,
            'str' => $s->chance(1, 3) ? gen_str($s) : 'p' . str_repeat('q', $s->int(3)) . $s->int($n + 2),
            'bytes' => gen_str($s),
            'arr' => [$s->int($n + 1), $s->int(2)],
            'obj' => new Obj($s->int($n + 1)),
        };
    };
    $rev = $s->chance(1, 4) ? -1 : 1;
    $scale = $s->pick([1, 1, 2, 1 << 31, 1 << 32, 1 << 40, PHP_INT_MAX, 1.5, 'str', 'bool']);
    $cmpName = $useKey ? $s->pick(['default', 'default', '<=>', 'strcmp', 'stable']) : match ($what) {
        'bytes' => $s->pick(['strcmp', 'stable', 'len']), 'obj' => 'prop', 'str' => $s->pick(['default', 'strcmp', 'stable']),
        'arr' => $s->pick(['default', 'first', 'stable']), default => $s->pick(['default', 'default', '<=>', 'stable', 'div']),
    };
    $raw = match ($cmpName) {
        'default', '<=>' => fn($a, $b) => $a <=> $b, 'strcmp' => fn($a, $b) => strcmp((string)$a, (string)$b), 'stable' => fn($a, $b) => Teds\stable_compare($a, $b),
        'len' => fn($a, $b) => strlen($a) <=> strlen($b), 'prop' => fn($a, $b) => $a->n <=> $b->n, 'first' => fn($a, $b) => $a[0] <=> $b[0],
        'div' => fn($a, $b) => intdiv((int)$a, 3) <=> intdiv((int)$b, 3),
    };
    $cmp = $cmpName === 'default' ? $raw : fn($a, $b) => $rev * ($raw($a, $b) <=> 0);
    // the entries, sorted
    $keyKind = $s->int(4);
    $a = [];
    for ($i = 0; $i < $n; $i++) {
        $v = $mkElem();
        switch ($useKey ? $keyKind : 3) {
            case 0: case 1: $a[$s->chance(1, 5) ? gen_int($s) : $s->int(2 * $n + 2)] = $v; break;
            case 2: $a['k' . $s->int(2 * $n + 2)] = $v; break;
            default: $a[] = $v;
        }
    }
    if ($what === 'obj' && $n > 60) { throw new Discard(); }
    if ($useKey) { uksort($a, $cmp); } else { usort($a, $cmp); }
    $shape = $s->int(7);
    $slots = count($a);
    switch ($shape) {
        case 1: case 2:     // holes: in one stretch, spread out, at an end
            $from = $s->int($slots + 1);
            $len = $s->int($slots - $from + 1);
            $k = array_keys($a);
            if ($s->chance(1, 2)) { for ($i = $from; $i < $from + $len; $i++) { unset($a[$k[$i]]); } }
            else { $step = 2 + $s->int(4); foreach ($k as $i => $x) { if ($i % $step !== 0) { unset($a[$x]); } } }
            break;
        case 3: if (!$useKey) { $r = []; foreach ($a as $i => $v) { $r[$i % 3 ? "s$i" : $i * 7] = $v; } $a = $r; } break;
        case 4: foreach ($a as $k => $_) { $x = $a[$k]; unset($a[$k]); $a[$k] = &$x; unset($x); } break;
        case 5: $a = immutable($a); break;
        case 6:             // references to shared variables; hash instead of packed
            $r = ['~' => 0];
            foreach ($a as $k => $v) { $r[$k] = $v; }
            unset($r['~']);
            $a = $r;
            break;
    }
    for ($q = 1 + $s->int(4); $q > 0; $q--) {
        $s->mark();
        $ks = array_keys($a);
        $target = $ks && $s->chance(1, 2) ? ($useKey ? $ks[$s->int(count($ks))] : $a[$ks[$s->int(count($ks))]]) : ($useKey ? ($keyKind === 2 ? 'k' . $s->int(2 * $n + 3) : $s->range(-1, 2 * $n + 2)) : $mkElem());
        if (is_string($target) && $cmpName === 'default' && !$useKey && $s->chance(1, 4)) { $target = new Str18($target); }
        // expected, by linear scan
        $signs = [];
        foreach ($a as $k => $v) { $signs[] = $cmp($target, $useKey ? $k : $v) <=> 0; }
        for ($i = 1; $i < count($signs); $i++) { if ($signs[$i] > $signs[$i - 1]) { $c->label('not sorted for this target'); continue 2; } }
        $eq = array_keys($signs, 0, true);
        $last = array_keys($signs, 1, true);
        $last = $last ? end($last) : null;
        $calls = 0;
        $args = [];
        $throwAt = $cmpName !== 'default' && $s->chance(1, 12) ? $s->int(6) : -1;
        $user = $cmpName === 'default' ? null : function ($x, $y) use (&$calls, &$args, $cmp, $scale, $throwAt) {
            $args[] = [$x, $y];
            if ($calls++ === $throwAt) { throw new UserError('from the comparer'); }
            $r = $cmp($x, $y);
            return match (true) { $scale === 'str' => (string)$r, $scale === 'bool' => $r > 0 ? true : $r, is_float($scale) => $r * $scale, default => $r * $scale };
        };
        $before = $a;
        $pos = key($a);
        if ($target instanceof Str18) { $target->calls = 0; $target->throwAt = $s->chance(1, 2) ? $s->int(6) : -1; }
        $c->ops++;
        if (count($a) > 1) { $c->nt(); }
        $desc = "binary_search(" . ($c->verbose ? show($a) : 'array') . ', ' . show($target) . ", $cmpName" . ($rev < 0 ? ' reversed' : '') . ($useKey ? ', useKey' : '') . ')';
        $c->say($desc);
        $c->doing = 'binary_search';
        $r = attempt(fn() => $useKey ? Teds\binary_search($a, $target, $user, true) : ($user || $s->int(2) ? Teds\binary_search($a, $target, $user) : Teds\binary_search($a, $target)));
        $c->label($cmpName);
        if (!same($before, $a) || key($a) !== $pos) { $c->fail("$desc changed the array"); }
        foreach ($args as [$x, $y]) { if (!same($x, $target)) { $c->fail("$desc: the comparer got " . show($x) . ' instead of the target as its first argument'); } }
        $bound = 2 * (int)ceil(log($slots + 2, 2)) + 4;
        if ($calls > $bound) { $c->fail("$desc made $calls comparisons for $slots slots"); }
        if ($target instanceof Str18) { $calls = $target->calls; $throwAt = $target->throwAt; $c->label('object target'); }
        if ($throwAt >= 0 && $calls > $throwAt) {
            if ($calls > $throwAt + 1) { $c->fail("$desc: the comparer was called again after it threw"); }
            expect_outcome($c, $desc, [UserError::class], $r);
            continue;
        }
        if ($r[0] !== 'ok') { $c->fail("$desc throws {$r[0]}: {$r[1]}"); }
        $r = $r[1];
        if (array_keys($r) !== ['found', 'key', 'value']) { $c->fail("$desc returns " . show($r)); }
        if ($eq) {
            $i = array_search($r['key'], $ks, true);
            if ($r['found'] !== true || $i === false || !in_array($i, $eq, true) || !same($r['value'], $a[$r['key']])) { $c->fail("$desc returns " . show($r) . ', expected one of the entries ' . show($eq)); }
        } else {
            $e = ['found' => false, 'key' => $last === null ? null : $ks[$last], 'value' => $last === null ? null : $a[$ks[$last]]];
            if (!same($r, $e)) { $c->fail("$desc returns " . show($r) . ', expected ' . show($e)); }
        }
        $r['value'] = 'overwritten';
        $r['key'] = 'overwritten';
        if (!same($before, $a)) { $c->fail("$desc: changing the result changed the array"); }
    }
};
