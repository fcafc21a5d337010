<?php
// Words, bytes and bits of a BitVector are the same bits.
function bits_of_word(int $v, int $w): array { $r = []; for ($i = 0; $i < $w; $i++) { $r[] = (bool)(($v >> $i) & 1); } return $r; }
function word_of_bits(array $b, bool $signed): int {
    $w = count($b);
    $v = 0;
    foreach ($b as $i => $x) { if ($x) { $v |= 1 << $i; } }
    if ($signed && $w < 64 && $b[$w - 1]) { $v -= 1 << $w; }
    return $v;
}
function bytes_of_bits(array $b): string {
    $r = '';
    for ($i = 0; $i < count($b); $i += 8) { $x = 0; for ($j = 0; $j < 8; $j++) { if ($b[$i + $j] ?? false) { $x |= 1 << $j; } } $r .= chr($x); }
    return $r;
}
function bits_of_bytes(string $t): array { $r = []; for ($i = 0; $i < strlen($t); $i++) { array_push($r, ...bits_of_word(ord($t[$i]), 8)); } return $r; }
return function (Src $s, Ctx $c): void {
    $bits = function (int $max) use ($s) {
        $n = $s->size($max);
        $mode = $s->int(3);
        $r = [];
        for ($i = 0; $i < $n; $i++) { $r[] = $mode === 0 ? false : ($mode === 1 ? true : (bool)$s->int(2)); }
        return $r;
    };
    $m = $bits($s->int(1500) === 1499 ? 70000 : ($s->chance(1, 4) ? 400 : 130));
    $how = $s->int(4);
    if ($how === 0) {
        $t = bytes_of_bits($m);
        $m = bits_of_bytes($t);
        if ($s->chance(1, 2)) { $t = vprobe_fresh_string($t); }
        $o = Teds\BitVector::fromBinaryString($t);
    } elseif ($how === 1) { $o = new Teds\BitVector(pair_gen(array_map(fn($x) => [0, $x], $m))); }
    elseif ($how === 2) { $o = unserialize(serialize(new Teds\BitVector($m))); }
    else { $o = new Teds\BitVector($m); }
    $c->say('construct ' . ['fromBinaryString', 'generator', 'unserialize', 'array'][$how] . ' of ' . count($m) . ' bits ' . ($c->verbose ? bin2hex(bytes_of_bits($m)) : ''));
    $val = fn() => $s->chance(1, 3) ? gen_int($s) : (($s->int(1 << 32) << 32) | $s->int(1 << 32));
    $check = function (string $d) use ($c, &$o, &$m) {
        if (count($o) !== count($m)) { $c->fail("after $d: " . count($o) . ' bits, expected ' . count($m)); }
        if ($o->toArray() !== $m) { $c->fail("after $d: bits " . bin2hex(bytes_of_bits($o->toArray())) . ', expected ' . bin2hex(bytes_of_bits($m))); }
    };
    $check('construct');
    while ($s->more(16)) {
        $c->ops++;
        $n = count($m);
        if ($n >= 8) { $c->nt(); }
        $op = $s->pickw(['get' => 10, 'set' => 8, 'bin' => 3, 'frombin' => 2, 'push' => 2, 'pop' => 2, 'insert' => 2, 'unset' => 2, 'setSize' => 2, 'front' => 2, 'bit' => 2, 'clone' => 1, 'roundtrip' => 1, 'clear' => 1, 'all' => 2]);
        $d = $op;
        switch ($op) {
            case 'get': case 'set':
                $w = $s->pick([8, 16, 32, 64]);
                $u = $op === 'get' && $w < 64 && $s->int(2) === 1;
                $words = intdiv($n, $w);
                $i = $words && $s->chance(4, 5) ? $s->int($words) : $s->pick([$words, $words - 1, $words + 1, -1, PHP_INT_MAX, PHP_INT_MIN, 1 << 58, 1 << 61, (1 << 61) + max(0, $words - 1), 1 << 32, -$words, (1 << 59) + max(0, $words - 1), (1 << 58) + max(0, $words - 1)]);
                $ok = $i >= 0 && $i < $words;
                if ($op === 'get') {
                    $f = 'get' . ($u ? 'U' : '') . "Int$w";
                    $c->doing = $d = "$f($i)";
                    $e = $ok ? ['ok', word_of_bits(array_slice($m, $i * $w, $w), !$u)] : [OOB];
                    expect_outcome($c, "$d of $n bits", $e, attempt(fn() => $o->$f($i)));
                } else {
                    $v = $val();
                    $f = "setInt$w";
                    $c->doing = $d = "$f($i, $v)";
                    $e = $ok ? ['ok', null] : [OOB];
                    expect_outcome($c, "$d of $n bits", $e, attempt(fn() => $o->$f($i, $v)));
                    if ($ok) { foreach (bits_of_word($v, $w) as $j => $x) { $m[$i * $w + $j] = $x; } }
                }
                break;
            case 'all':     // every word of every size
                foreach ([8, 16, 32, 64] as $w) {
                    for ($i = 0; $i < intdiv($n, $w); $i++) {
                        $b = array_slice($m, $i * $w, $w);
                        foreach ($w < 64 ? ["getInt$w", "getUInt$w"] : ["getInt64"] as $f) {
                            $c->doing = "$f($i)";
                            $g = $o->$f($i);
                            if ($g !== ($e = word_of_bits($b, $f[3] === 'I'))) { $c->fail("$f($i) of $n bits is $g, expected $e"); }
                        }
                    }
                }
                break;
            case 'bin':
                $c->doing = 'toBinaryString';
                $t = $o->toBinaryString();
                $e = bytes_of_bits($m);
                if ($t !== $e) { $c->fail("toBinaryString of $n bits is " . bin2hex($t) . ', expected ' . bin2hex($e)); }
                break;
            case 'frombin':
                $t = '';
                for ($k = $s->int(20); $k > 0; $k--) { $t .= chr($s->pick([0, 255, 1, 128, $s->int(256)])); }
                $c->doing = $d = 'fromBinaryString(' . bin2hex($t) . ')';
                $o = Teds\BitVector::fromBinaryString($t);
                $m = bits_of_bytes($t);
                if ($o->toBinaryString() !== $t) { $c->fail("$d does not give the same bytes back"); }
                break;
            case 'push':
                $v = $n > 500 ? [] : $bits(70);
                $f = $s->int(2) ? 'push' : 'pushBits';
                $c->doing = $d = "$f(" . count($v) . ' bits)';
                $o->$f(...$v);
                array_push($m, ...$v);
                break;
            case 'pop': for ($k = $s->int($n + 1); $k > 0; $k--) { if ($o->pop() !== array_pop($m)) { $c->fail('pop'); } } break;
            case 'front':
                if ($s->int(2) && $n) { if ($o->shift() !== array_shift($m)) { $c->fail('shift'); } $d = 'shift'; }
                else { $v = $n > 500 ? [] : $bits(40); $o->unshift(...$v); array_unshift($m, ...array_reverse($v)); $d = 'unshift(' . count($v) . ' bits)'; }
                break;
            case 'insert':
                $i = $s->int($n + 1);
                $v = $n > 500 ? [] : $bits(40);
                $c->doing = $d = "insert($i, " . count($v) . ' bits)';
                $o->insert($i, ...$v);
                array_splice($m, $i, 0, $v);
                break;
            case 'unset':
                if (!$n) { break; }
                $i = $s->int($n);
                $c->doing = $d = "unset([$i])";
                unset($o[$i]);
                array_splice($m, $i, 1);
                break;
            case 'bit':
                if (!$n) { break; }
                $i = $s->int($n);
                $b = (bool)$s->int(2);
                $c->doing = $d = "setBit($i)";
                if ($s->int(2)) { $o->setBit($i, $b); } else { $o[$i] = $b; }
                $m[$i] = $b;
                break;
            case 'setSize':
                $k = $s->chance(1, 2) ? intdiv($n, 64) * 64 + $s->pick([0, 1, 8, 63, 64, 65, 128]) : $s->int($n + 70);
                if ($k > 700) { $k = 64; }
                $b = (bool)$s->int(2);
                $c->doing = $d = "setSize($k, " . ($b ? 'true' : 'false') . ')';
                $o->setSize($k, $b);
                $m = $k < $n ? array_slice($m, 0, $k) : array_pad($m, $k, $b);
                break;
            case 'clone': $o = clone $o; break;
            case 'roundtrip': $o = unserialize(serialize($o)); break;
            case 'clear': $o->clear(); $m = []; break;
        }
        $c->say($d);
        $check($d);
    }
    $c->doing = 'the end';
    if ($o->toBinaryString() !== bytes_of_bits($m)) { $c->fail('at the end toBinaryString is ' . bin2hex($o->toBinaryString()) . ', expected ' . bin2hex(bytes_of_bits($m))); }
};
