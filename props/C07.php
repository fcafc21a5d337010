<?php
// stable_compare is the documented total order: against an independent implementation, plus the order axioms.
enum Suit { case A; case B; }
final class VGen {
    public array $objs = [];
    public array $res = [];
    public function __construct(public Src $s) {}
    /** int/float close to a precision boundary */
    public function num() {
        $s = $this->s;
        $e = $s->int(4) === 0 ? $s->int(64) : $s->range(51, 63);
        $base = $e >= 63 ? PHP_INT_MAX : 1 << $e;
        $d = $s->pick([0, 1, -1, 2, -2, 3, -3, 511, -511, 512, -512, 513, 1023, 1024, 1025, -1024, -1025, 2048]);
        $v = $base + ($base === PHP_INT_MAX ? -abs($d) : $d);
        if ($s->chance(1, 2)) { $v = $s->chance(1, 20) ? PHP_INT_MIN : -$v; }
        if ($s->chance(1, 2)) {
            $f = (float)$v;
            switch ($s->int(5)) {
                case 3: $f += 0.5; break;
                case 4: // neighbouring float
                    $u = unpack('P', pack('E', 1.0));
                    $b = unpack('q', strrev(pack('E', $f)))[1] + $s->pick([1, -1]);
                    $f = unpack('E', strrev(pack('q', $b)))[1];
                    break;
            }
            return $f;
        }
        return (int)$v;
    }
    /** long or deep values: sizes that do not fit in a byte or two */
    public function large() {
        $s = $this->s;
        switch ($s->int(3)) {
            case 0:
                $n = $s->int(12) === 11 ? $s->pick([65535, 65536, 65537]) : $s->range(250, 260);
                $k = 1 + $s->int(3);
                $r = [];
                for ($i = 0; $i < $n; $i++) { $r[] = $i % $k; }
                if ($s->int(2)) { $r[$s->int($n)] = $this->val(2); }
                return $s->int(4) ? $r : ['x' => 0] + $r;
            case 1:
                $n = $s->int(4) === 3 ? $s->pick([32767, 32768, 65535, 65536, 65537]) : $s->pick([126, 127, 128, 129, 254, 255, 256, 257, 512]);
                $r = str_repeat($s->pick(['a', "\0", "\x80"]), $n);
                if ($s->int(2)) { $r[$s->int($n)] = $s->pick(['b', "\0", "\xff", "\x7f"]); }
                return $r;
            default:
                $r = $this->val(2);
                for ($n = $s->range(5, 70); $n > 0; $n--) { $r = [$r]; }
                return $r;
        }
    }
    public function val(int $depth = 0) {
        $s = $this->s;
        if ($depth === 0 && $s->int(120) === 119) { return $this->large(); }
        switch ($s->int($depth > 2 ? 9 : 13)) {
            case 0: return [null, false, true][$s->int(3)];
            case 1: return $this->num();
            case 2: return $this->num();
            case 3: return gen_int($s);
            case 4: return gen_float($s);
            case 5: case 6: return gen_str($s);
            case 7: return $this->obj();
            case 8: return $s->int(4) === 0 ? $this->resource() : $s->int(4);
            default: return $this->arr($depth);
        }
    }
    public function arr(int $depth): array {
        $s = $this->s;
        $n = $s->int(4);
        $r = [];
        $shape = $s->int(4);
        for ($i = 0; $i < $n; $i++) {
            $v = $this->val($depth + 1);
            if ($shape < 2) { $r[] = $v; }
            else { $r[$s->pick([0, 1, 2, 'a', 'b', 'ab', 'B', '', -1, -5, 7, PHP_INT_MAX, PHP_INT_MIN, '-0', "\0", 'zzz'])] = $v; }
        }
        if ($shape === 1 && $n) { $x = $r[0]; $r[0] = &$x; }
        return $r;
    }
    public function obj() {
        $s = $this->s;
        if ($this->objs && $s->chance(1, 2)) { return $this->objs[$s->int(count($this->objs))]; }
        return $this->objs[] = match ($s->int(7)) {
            0 => new Obj(), 1 => new ObjB(), 2 => new OC(), 3 => new stdClass(), 4 => new Teds\Vector(), 5 => Suit::cases()[$s->int(2)],
            6 => function () {},
        };
    }
    public function resource() {
        $s = $this->s;
        if ($this->res && $s->chance(1, 2)) { return $this->res[$s->int(count($this->res))]; }
        return $this->res[] = fopen('php://memory', 'r');
    }
    /** A value equal to $v, built separately, or almost equal to it. */
    public function relative($v) {
        $s = $this->s;
        if ($s->chance(1, 3)) { return fresh_copy($v); }
        if (is_int($v)) { return [(float)$v, $v === PHP_INT_MAX ? $v : $v + 1, $v === PHP_INT_MIN ? $v : $v - 1, (string)$v][$s->int(4)]; }
        if (is_float($v)) {
            if (is_finite($v) && abs($v) < 9.2e18 && $s->chance(1, 2)) { $i = (int)$v; return abs($i) < PHP_INT_MAX - 5000 ? $i + $s->pick([0, 0, 1, -1, 2, -2, 512, -513]) : $i; }
            return $s->chance(1, 2) ? -$v : $v + 1.0;
        }
        if (is_string($v)) { return [$v . "\0", substr($v, 0, -1), $v . 'a', strrev($v), $v . "\xff", strtoupper($v), (int)$v][$s->int(7)]; }
        if (is_array($v) && count($v) > 100) {
            $k = array_keys($v)[$s->int(count($v))];
            switch ($s->int(4)) {
                case 0: array_pop($v); return $v;
                case 1: $v[$k] = $this->val(2); return $v;
                case 2: unset($v[$k]); return $v;
                default: $v[] = 1; return $v;
            }
        }
        if (is_array($v)) {
            switch ($s->int(6)) {
                case 0: return array_reverse($v, true);
                case 1: array_pop($v); return $v;
                case 2: return [...array_values($v), 1];
                case 3: foreach ($v as $k => $x) { $v[$k] = $this->relative($x); if ($s->chance(1, 2)) { break; } } return $v;
                case 4: $r = []; foreach ($v as $k => $x) { $r[$s->chance(1, 4) ? $k . 'x' : $k] = $x; } return $r;
                default: return [$v];
            }
        }
        return $this->val();
    }
}
return function (Src $s, Ctx $c): void {
    $g = new VGen($s);
    $vs = [];
    while (count($vs) < 3 || $s->more(3)) {
        $s->mark();
        $vs[] = $vs && $s->chance(2, 3) ? $g->relative($vs[$s->int(count($vs))]) : $g->val();
        if (count($vs) > 12) { break; }
    }
    if ($c->verbose) { foreach ($vs as $i => $v) { $c->say("v$i = " . show($v)); } }
    $c->doing = 'stable_compare';
    $n = count($vs);
    $t = [];
    $sign = fn(int $x) => $x <=> 0;
    for ($i = 0; $i < $n; $i++) {
        for ($j = 0; $j < $n; $j++) {
            $r = $t[$i][$j] = $sign(Teds\stable_compare($vs[$i], $vs[$j]));
            $e = ref_compare($vs[$i], $vs[$j]);
            if ($r !== $e) { $c->fail('stable_compare(' . show($vs[$i]) . ', ' . show($vs[$j]) . ") gives $r, expected $e"); }
            if (($r === 0) !== strict_eq($vs[$i], $vs[$j])) { $c->fail('stable_compare(' . show($vs[$i]) . ', ' . show($vs[$j]) . ") is $r but identity says otherwise"); }
            if ($i !== $j && type_rank($vs[$i]) === type_rank($vs[$j])) { $c->nt(); $c->label('same rank ' . type_rank($vs[$i])); }
            $c->ops++;
        }
    }
    for ($i = 0; $i < $n; $i++) {
        for ($j = 0; $j < $n; $j++) {
            if ($t[$i][$j] !== -$t[$j][$i]) { $c->fail('not antisymmetric on ' . show($vs[$i]) . ' and ' . show($vs[$j])); }
            for ($k = 0; $k < $n; $k++) {
                if ($t[$i][$j] <= 0 && $t[$j][$k] <= 0 && $t[$i][$k] > 0) { $c->fail('not transitive on ' . show($vs[$i]) . ', ' . show($vs[$j]) . ', ' . show($vs[$k])); }
            }
        }
    }
    // every sorted container agrees with it
    $sorted = $vs;
    usort($sorted, 'ref_compare');
    $u = [];
    foreach ($sorted as $v) { if (!$u || ref_compare($u[count($u) - 1], $v) !== 0) { $u[] = $v; } }
    foreach ([Teds\StrictTreeSet::class, Teds\StrictSortedVectorSet::class] as $cls) {
        $got = (new $cls($vs))->values();
        if (!same_keys($u, $got)) { $c->fail("$cls orders " . show($got) . ', expected ' . show($u)); }
    }
    // references inside arguments make no difference
    $a = $vs[0]; $b = $vs[1];
    $ra = &$a; $rb = &$b;
    if ($sign(Teds\stable_compare([$ra], [&$rb])) !== $t[0][1]) { $c->fail('comparison changes through references'); }
};
