<?php
// strict_equals is identity with NAN equal to itself; strict_hash is a function of it.
/** Another representation of an equal value. */
function rebuild(Src $s, $v) {
    if (is_string($v)) { return $s->chance(1, 2) ? vprobe_fresh_string($v) : $v; }
    if (is_float($v)) { return $v === 0.0 && $s->chance(1, 2) ? -$v : ($v !== $v ? [NAN, -NAN, fdiv(0.0, 0.0), INF - INF, unpack('E', hex2bin('7ff8000000000123'))[1]][$s->int(5)] : $v); }
    if (is_array($v)) {
        $how = $s->int(5);
        $r = [];
        if ($how === 1) { $r['~'] = 1; }            // becomes a hash, not packed
        if ($how === 2) { $r[] = 1; $r = []; }
        foreach ($v as $k => $x) {
            if ($s->int(6) === 0) { $r['~~'] = 1; unset($r['~~']); }   // tombstones
            $y = rebuild($s, $x);
            if ($how === 3 && $s->chance(1, 2)) { $r[$k] = &$y; } else { $r[$k] = $y; }
            unset($y);
        }
        unset($r['~']);
        return $r;
    }
    return $v;
}
require_once __DIR__ . '/C07.php';
return function (Src $s, Ctx $c): void {
    $g = new VGen($s);
    switch ($s->int(13)) {
        case 12:    // hashing while PHP itself is walking the array
            $a = [gen_int($s), 'x' => [1, gen_str($s)], 'o' => null, 'l' => [gen_int($s)]];
            $o = new class implements JsonSerializable {
                public array $got = [];
                public $arr;
                public function jsonSerialize(): mixed { $this->got[] = Teds\strict_hash($this->arr); return 1; }
                public function __debugInfo() { $this->got[] = Teds\strict_hash($this->arr); return []; }
            };
            if ($s->int(2)) { $a['o'] = $o; } else { $a['x'][] = $o; }
            $h = Teds\strict_hash($a);
            $o->arr = &$a;
            $how = $s->int(3);
            match ($how) { 0 => json_encode($a), 1 => print_r($a, true), 2 => (function () use (&$a) { ob_start(); var_dump($a); ob_end_clean(); })() };
            unset($o->arr);
            $o->arr = null;
            if (!$o->got) { return; }     // (json_encode refuses some strings before it gets there)
            foreach ($o->got as $x) { if ($x !== $h) { $c->fail("strict_hash is $x while the array is being dumped ($how), and $h otherwise"); } }
            if (Teds\strict_hash($a) !== $h) { $c->fail('strict_hash changed after the array was dumped'); }
            $c->label('hashed while walked');
            $c->nt();
            $c->ops++;
            return;
        case 11:    // arrays containing themselves
            $a = ['k' => 1, 'v' => gen_int($s)];
            $depth = $s->int(3);
            if ($depth === 0) { $a['self'] = &$a; } elseif ($depth === 1) { $a['self'] = [&$a, 1]; } else { $b = [2, &$a]; $a['self'] = &$b; $a['t'] = [1, [2]]; }
            $h = Teds\strict_hash($a);
            if ($h !== Teds\strict_hash($a)) { $c->fail('hash of a cyclic array is not stable'); }
            $cp = $a;
            $cp['z'] = 1;
            unset($cp['z']);
            if ($h !== Teds\strict_hash($cp)) { $c->fail('hash of a copied cyclic array differs'); }
            if (!Teds\strict_equals($a, $a)) { $c->fail('cyclic array not equal to itself'); }
            // no recursion mark may be left behind
            $plain = [1, [2, 3]];
            if ($depth === 2 && Teds\strict_hash($a['t']) !== Teds\strict_hash(rebuild($s, [1, [2]]))) { $c->fail('hash of a part of a cyclic array is wrong afterwards'); }
            $m = new Teds\StrictHashSet([$a]);
            if (!$m->contains($a) || $m->add($a) || count($m) !== 1) { $c->fail('cyclic array as a set member'); }
            json_encode($plain);
            if (@json_encode($a['v']) === false) { $c->fail('json'); }
            unset($a['self'], $b, $cp);
            $c->label('cyclic');
            $c->nt();
            $c->ops++;
            return;
        case 10:    // spread of hashes over simple distinct values
            $kind = $s->int(4);
            $n = 64;
            $st = $s->int(1000);
            $hs = [];
            $keep = [];
            for ($i = 0; $i < $n; $i++) {
                $v = match ($kind) { 0 => $st + $i, 1 => 'k' . ($st + $i), 2 => new Obj($i), 3 => [$st + $i, $i & 3] };
                $keep[] = $v;
                $hs[Teds\strict_hash($v)] = true;
            }
            if (count($hs) < $n / 2) { $c->fail("64 distinct simple values have only " . count($hs) . " distinct hashes (kind $kind)"); }
            $c->label('spread');
            $c->nt();
            $c->ops++;
            return;
    }
    $vs = [];
    while (count($vs) < 3 || $s->more(3)) {
        $s->mark();
        $vs[] = !$vs ? $g->val() : match ($s->int(4)) { 0 => $g->val(), 1 => $g->relative($vs[$s->int(count($vs))]), default => rebuild($s, $vs[$s->int(count($vs))]) };
        if (count($vs) > 10) { break; }
    }
    if ($c->verbose) { foreach ($vs as $i => $v) { $c->say("v$i = " . show($v)); } }
    $c->doing = 'strict_hash/strict_equals';
    $h = array_map(fn($v) => Teds\strict_hash($v), $vs);
    foreach ($vs as $i => $a) {
        foreach ($vs as $j => $b) {
            $c->ops++;
            $e = strict_eq($a, $b);
            if ($i !== $j && $e && !is_object($a)) { $c->nt(); $c->label('equal pair'); }
            $r = Teds\strict_equals($a, $b);
            if ($r !== $e) { $c->fail('strict_equals(' . show($a) . ', ' . show($b) . ') gives ' . show($r)); }
            if ($e && $h[$i] !== $h[$j]) { $c->fail('equal values ' . show($a) . ' and ' . show($b) . " hash to {$h[$i]} and {$h[$j]}"); }
            if (!$e && is_object($a) && is_object($b) && $h[$i] === $h[$j]) { $c->fail('different objects have equal hashes'); }
        }
        if ($h[$i] !== Teds\strict_hash($a)) { $c->fail('hash of ' . show($a) . ' changed'); }
        // values held elsewhere hash alike
        $ref = &$vs[$i];
        $o = new Teds\Vector([$a]);
        if (Teds\strict_hash($o[0]) !== $h[$i] || Teds\strict_hash($ref) !== $h[$i]) { $c->fail('hash of ' . show($a) . ' differs when read from a collection or reference'); }
        unset($ref);
    }
    // the hash containers and unique_values use the same equality
    $u = [];
    foreach ($vs as $v) { foreach ($u as $w) { if (strict_eq($v, $w)) { continue 2; } } $u[] = $v; }
    $set = new Teds\StrictHashSet($vs);
    if (!same_keys($u, $set->values())) { $c->fail('StrictHashSet holds ' . show($set->values()) . ', expected ' . show($u)); }
    if (!same_keys($u, Teds\unique_values($vs))) { $c->fail('unique_values gives ' . show(Teds\unique_values($vs)) . ', expected ' . show($u)); }
};
