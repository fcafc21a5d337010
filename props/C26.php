<?php
// Array-access operators against the offset* methods (on a twin with the same history) and a model, for offsets of every type.

/** What PHP lists make of an offset: [true, int] or [false, null]; the conversion's diagnostics are left in the context. */
function list_offset($k): array {
    if (is_array($k) || is_object($k) || $k === null) { return [false, null]; }
    $a = [];
    $a[$k] = 1;
    $i = array_key_first($a);
    return is_int($i) ? [true, $i] : [false, null];
}
/** Operators with a constant offset are compiled differently. */
function const_offset_ops(): array {
    static $r = null;
    if ($r === null) {
        foreach ([0, 1, 2, -1, '0', '1', '2', '-1', '-0', '01', 'a', '', 1.0, 0.0, 1.5, true, false, null, [], [1], '9223372036854775807', '9223372036854775808'] as $k) {
            $e = var_export($k, true);
            $r[] = [$k, eval("return [
                'get' => static function (\$o) { return \$o[$e]; },
                'isset' => static function (\$o) { return isset(\$o[$e]); },
                'empty' => static function (\$o) { return empty(\$o[$e]); },
                '??' => static function (\$o) { return \$o[$e] ?? 'default'; },
                'set' => static function (\$o, \$v) { return \$o[$e] = \$v; },
                'unset' => static function (\$o) { unset(\$o[$e]); },
            ];")];
        }
    }
    return $r;
}
return function (Src $s, Ctx $c): void {
    $cls = $s->pick([...SEQ_CLASSES, ...ALL_MAPS]);
    $short = substr($cls, 5);
    $seq = in_array($cls, SEQ_CLASSES, true);
    $imm = $cls === Teds\ImmutableSequence::class;
    $g = new CollGen($s, $c, $cls, 'nniiffssaaor', 8);
    [$o, $d] = $g->make(12);
    $c->say('$a = ' . $d);
    $b = clone $o;
    $m = $seq ? $o->values() : null;
    $mm = null;
    if (!$seq) {
        $mm = new MapModel(is_sorted_class($cls));
        foreach ($o->toPairs() as [$k, $v]) { $mm->put($k, $v); }
    }
    $res = null;
    $offset = function () use ($s, &$m, $mm, $seq, $g, $o, &$res) {
        if (!$seq) {
            $ks = $mm->keys();
            return $ks && $s->int(3) ? ($s->int(4) ? $ks[$s->int(count($ks))] : fresh_copy($ks[$s->int(count($ks))])) : ($s->int(3) ? $g->keys->probe() : $s->pick([null, 0, '0', 0.0, false, '', [], 1, true, '1', 1.0, NAN]));
        }
        $n = count($m);
        $i = $s->int(4) ? $s->int($n + 1) : $s->pick([$n, -1, $n + 1, -$n, PHP_INT_MAX, PHP_INT_MIN, 1 << 32, (1 << 32) + 1, -1 - $n, 1 << 31, 256]);
        switch ($s->int(12)) {
            case 0: case 1: case 2: return $i;
            case 3: return (string)$i;
            case 4: return (float)$i;
            case 5: return $s->int(3) ? (float)$i + 0.5 : (float)$i - 0.5;
            case 6: return (bool)$s->int(2);
            case 7: return $s->pick([" $i", "$i ", "0$i", "+$i", "$i.0", "{$i}x", "-$i", '-0', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '', 'a', "$i\0", '1e0', '00']);
            case 8: return $s->pick([NAN, INF, -INF, 1e30, -1e30, -0.0, 9223372036854775808.0, -9223372036854775808.0, 4294967296.0, 18446744073709551616.0]);
            case 9: return $res ??= fopen('php://memory', 'r');
            case 10: return $s->pick([null, [], [$i], new Obj(), immutable([0, 1]), fn() => 0, $o]);
            default: return $g->vals->probe();
        }
    };
    while ($s->more(20)) {
        $c->ops++;
        if (($seq ? count($m) : count($mm->e)) > 1) { $c->nt(); }
        $op = $s->pickw(['get' => 6, 'isset' => 5, 'empty' => 4, '??' => 4, 'set' => 8, 'unset' => 5, 'append' => 3, 'compound' => 3, '??=' => 3, 'list' => 2, 'nested' => 2, 'key' => 3, 'change' => 4]);
        $k = $offset();
        $v = $g->val();
        // which value a key ends up with in 0.0 / -0.0 is not specified; values are exact
        $form = $s->pickw(['var' => 6, 'ref' => 2, 'tmp' => 1, 'const' => 2, 'undef' => 1]);
        $cops = null;
        if ($form === 'const') { [$k, $cops] = $s->pick(const_offset_ops()); }
        if ($form === 'undef') { $k = null; }
        if (!$seq && is_resource($k) && get_resource_type($k) === 'Unknown') { $k = 0; }
        $d = "$short $op [$form " . ($c->verbose ? show($k) : '') . ']' . ($c->verbose && in_array($op, ['set', 'append', '??=']) ? ' = ' . show($v) : '');
        $c->say($d);
        $c->doing = $d;
        // expected position
        $diag = 0;
        if ($seq) {
            [$ok, $i] = list_offset($k);
            $diag = count($c->takeWarnings());
            $in = $ok && $i >= 0 && $i < count($m);
            $cur = $in ? $m[$i] : null;
            $missing = $ok ? [OOB] : [TypeError::class];
        } else {
            $ok = true;
            $in = $mm->has($k);
            $cur = $in ? $mm->get($k) : null;
            $missing = [OOB];
        }
        $kr = $k;
        $ref = &$kr;
        /** Runs the operator on $o and the method form on $b, and compares both with $e. */
        $both = function (array $e, Closure $opf, Closure $mf, bool $weak = false) use ($c, $d, $o, $b, &$diag, &$form, $seq) {
            $x = attempt(fn() => $opf($o));
            $wx = $c->takeWarnings();
            if ($form === 'undef') {
                $before = count($wx);
                $wx = array_values(array_filter($wx, fn($m) => !str_starts_with($m, 'Undefined variable')));
                if (count($wx) === $before) { $c->fail("$d: no warning for the undefined variable"); }
            }
            $y = attempt(fn() => $mf($b));
            $wy = $c->takeWarnings();
            if ($weak) { // a refusal: any of the exceptions of $e
                foreach ([['operator', $x], ['method', $y]] as [$n, $r]) {
                    $hit = false;
                    foreach ($e as $cl) { $hit = $hit || is_a($r[0], $cl, true); }
                    if (!$hit) { $c->fail("$d: $n: expected " . implode(' or ', $e) . ', got ' . show_outcome($r)); }
                }
                return;
            }
            expect_outcome($c, "$d: operator", $e, $x);
            expect_outcome($c, "$d: method", $e, $y);
            if ($seq) {
                if (($diag > 0) !== (count($wx) > 0)) { $c->fail("$d: operator: " . ($wx ? "diagnostic {$wx[0]}" : 'no diagnostic for the conversion')); }
                if (($diag > 0) !== (count($wy) > 0)) { $c->fail("$d: method: " . ($wy ? "diagnostic {$wy[0]}" : 'no diagnostic for the conversion')); }
            } elseif ($wx || $wy) { $c->fail("$d: diagnostic " . ($wx[0] ?? $wy[0])); }
        };
        /** The operator in the chosen form. */
        $opr = function (string $what) use ($form, $cops, $k, &$ref, $v): Closure {
            if ($cops) { return fn($o) => $cops[$what]($o, $v); }
            return match ([$what, $form]) {
                ['get', 'ref'] => function ($o) use (&$ref) { return $o[$ref]; },
                ['get', 'tmp'] => fn($o) => $o[[$k][0]],
                ['get', 'undef'] => function ($o) { return $o[$nosuch]; },
                ['isset', 'ref'] => function ($o) use (&$ref) { return isset($o[$ref]); },
                ['isset', 'tmp'] => fn($o) => isset($o[[$k][0]]),
                ['isset', 'undef'] => function ($o) { return isset($o[$nosuch]); },
                ['empty', 'ref'] => function ($o) use (&$ref) { return empty($o[$ref]); },
                ['empty', 'tmp'] => fn($o) => empty($o[[$k][0]]),
                ['empty', 'undef'] => function ($o) { return empty($o[$nosuch]); },
                ['??', 'ref'] => function ($o) use (&$ref) { return $o[$ref] ?? 'default'; },
                ['??', 'tmp'] => fn($o) => $o[[$k][0]] ?? 'default',
                ['??', 'undef'] => function ($o) { return $o[$nosuch] ?? 'default'; },
                ['set', 'ref'] => function ($o) use (&$ref, $v) { $w = $v; $r = &$w; return $o[$ref] = $r; },
                ['set', 'tmp'] => fn($o) => $o[[$k][0]] = [$v][0],
                ['set', 'undef'] => function ($o) use ($v) { return $o[$nosuch] = $v; },
                ['unset', 'ref'] => function ($o) use (&$ref) { unset($o[$ref]); },
                ['unset', 'tmp'] => function ($o) use ($k) { unset($o[[$k][0]]); },
                ['unset', 'undef'] => function ($o) { unset($o[$nosuch]); },
                ['get', 'var'] => fn($o) => $o[$k],
                ['isset', 'var'] => fn($o) => isset($o[$k]),
                ['empty', 'var'] => fn($o) => empty($o[$k]),
                ['??', 'var'] => fn($o) => $o[$k] ?? 'default',
                ['set', 'var'] => fn($o) => $o[$k] = $v,
                ['unset', 'var'] => function ($o) use ($k) { unset($o[$k]); },
            };
        };
        $bad = !$ok;
        switch ($op) {
            case 'get':
                $both($in ? ['ok', $cur] : $missing, $opr('get'), fn($x) => $x->offsetGet($k));
                break;
            case 'isset':
                $both($bad ? $missing : ['ok', $in && $cur !== null], $opr('isset'), fn($x) => $x->offsetExists($k));
                break;
            case 'empty':
                $both($bad ? $missing : ['ok', !($in && $cur)], $opr('empty'), fn($x) => !($x->offsetExists($k) && $x->offsetGet($k)));
                break;
            case '??':
                $both($bad ? $missing : ['ok', $in && $cur !== null ? $cur : 'default'], $opr('??'), fn($x) => $x->offsetExists($k) ? $x->offsetGet($k) : 'default');
                break;
            case 'set':
                if ($imm) { $both([UNSUPPORTED, OOB, TypeError::class], $opr('set'), fn($x) => $x->offsetSet($k, $v), true); break; }
                if ($seq && !$in) {
                    // PHP names the operator's exception differently on Deque (pinned by the tests): OutOfBounds is a Runtime exception too
                    $both($bad ? $missing : [RuntimeException::class], $opr('set'), function ($x) use ($k, $v) { $x->offsetSet($k, $v); return $v; });
                    break;
                }
                $both(['ok', $v], $opr('set'), function ($x) use ($k, $v) { $x->offsetSet($k, $v); return $v; });
                if ($seq) { $m[$i] = $v; } else { $mm->put($k, $v); }
                break;
            case 'unset':
                if ($imm) { $both([UNSUPPORTED, OOB, TypeError::class], $opr('unset'), fn($x) => $x->offsetUnset($k), true); break; }
                $both($in || !$seq ? ['ok', null] : $missing, $opr('unset'), fn($x) => $x->offsetUnset($k));
                if ($seq) { if ($in) { array_splice($m, $i, 1); } } else { $mm->del($k); }
                break;
            case 'append':
                if ($form === 'undef') { $form = 'var'; }
                $diag = 0;
                $f = match ($s->int(3)) { 0 => fn($x) => $x[] = $v, 1 => fn($x) => $x[] = [$v][0], 2 => function ($x) use ($v) { $w = $v; $r = &$w; return $x[] = $r; } };
                if ($s->int(4) === 3) {
                    // a place below an element that does not exist yet
                    $x = attempt($s->int(2) ? function () use ($o, $v) { $o[][0] = $v; } : function () use ($o, $v) { $r = &$o[]; $r = $v; });
                    $c->takeWarnings();
                    if ($x[0] === 'ok') { $c->fail("$d: [][0] = or a reference to [] did not throw"); }
                    break;
                }
                if ($imm || !$seq) {
                    $x = attempt(fn() => $f($o));
                    if (!is_a($x[0], RuntimeException::class, true)) { $c->fail("$d: expected a RuntimeException, got " . show_outcome($x)); }
                    break;
                }
                $both(['ok', $v], $f, function ($x) use ($v) { $x->push($v); return $v; });
                $m[] = $v;
                break;
            case 'compound':
                if ($form === 'undef') { $form = 'var'; }
                $calc = match ($s->int(4)) { 0 => fn($x) => $x + 1, 1 => fn($x) => $x . 'x', 2 => fn($x) => $x | 1, 3 => fn($x) => $x ** 2 };
                $y = null;
                $w = match ($calc(3)) { 4 => '+', '3x' => '.', 9 => '**', default => '|' };
                if ($in) {
                    $y = attempt(fn() => $calc($cur));
                    $c->takeWarnings();
                    if ($y[0] !== 'ok' || (is_object($cur) && $w !== '.') || has_nan($y[1])) { break; }
                    $kinds = coll_elem_kinds($cls, '');
                    if ($kinds === 'b' || ($kinds === 'i' && !is_int($y[1]))) { break; }
                }
                $f = function ($x) use ($k, $w) {
                    switch ($w) { case '+': return $x[$k] += 1; case '.': return $x[$k] .= 'x'; case '|': return $x[$k] |= 1; default: return $x[$k] **= 2; }
                };
                $h = function ($x) use ($k, $calc) { $z = $calc($x->offsetGet($k)); $x->offsetSet($k, $z); return $z; };
                if ($imm) { $both([UNSUPPORTED, OOB, Error::class], $f, $h, true); break; }
                if (!$in) {
                    // PHP replaces the handler's exception by "Cannot use object of type X as array" (the original becomes its cause)
                    foreach ([attempt(fn() => $f($o)), attempt(fn() => $h($b))] as $x) { if ($x[0] === 'ok') { $c->fail("$d: accepted"); } }
                    $c->takeWarnings();
                    break;
                }
                // the operation itself may raise diagnostics ("A non-numeric value"): count only failures
                $xa = attempt(fn() => $f($o));
                $xb = attempt(fn() => $h($b));
                $c->takeWarnings();
                expect_outcome($c, "$d: operator $w=", $y, $xa);
                expect_outcome($c, "$d: method for $w=", $y, $xb);
                if ($seq) { $m[$i] = $y[1]; } else { $mm->put($k, $y[1]); }
                break;
            case '??=':
                if ($form === 'undef') { $form = 'var'; }
                $f = $form === 'ref' ? function ($x) use (&$ref, $v) { return $x[$ref] ??= $v; } : fn($x) => $x[$k] ??= $v;
                $h = function ($x) use ($k, $v) { if ($x->offsetExists($k)) { return $x->offsetGet($k); } $x->offsetSet($k, $v); return $v; };
                if ($bad) { $both([TypeError::class], $f, $h); break; }
                if ($in && $cur !== null) { $both(['ok', $cur], $f, $h); break; }
                if ($imm) { $both([UNSUPPORTED, OOB], $f, $h, true); break; }
                if ($seq && !$in) { $both([RuntimeException::class], $f, $h); break; }
                $both(['ok', $v], $f, $h);
                if ($seq) { $m[$i] = $v; } else { $mm->put($k, $v); }
                break;
            case 'list':
                if ($form === 'undef') { $form = 'var'; }
                $f = $form === 'ref' ? function ($x) use (&$ref) { [$ref => $y] = $x; return $y; } : function ($x) use ($k) { [$k => $y] = $x; return $y; };
                $both($in ? ['ok', $cur] : $missing, $f, fn($x) => $x->offsetGet($k));
                break;
            case 'nested':
                if ($form === 'undef') { $form = 'var'; }
                if ($in && is_object($cur) && !$cur instanceof ArrayAccess) { break; }
                $j = $s->pick([0, 1, 'a', 'k0', -1]);
                // the same expressions on a plain array holding the element
                $plain = $in ? [$cur] : [];
                $f0 = function ($z) use ($j) { return [isset($z[0][$j]), empty($z[0][$j]), $z[0][$j] ?? 'default']; };
                $exp = $f0($plain);
                $c->takeWarnings();
                $x = attempt(fn() => [isset($o[$k][$j]), empty($o[$k][$j]), $o[$k][$j] ?? 'default']);
                $c->takeWarnings();
                if ($bad) { expect_outcome($c, "$d: operator", [TypeError::class], $x); break; }
                expect_outcome($c, "$d: operators below the element", ['ok', $exp], $x);
                break;
            case 'key':
                $x = attempt(fn() => [$o->containsKey($k), $b->containsKey($k)]);
                $w = $c->takeWarnings();
                if ($seq) {
                    $want = is_int($k) && $in;
                    if ($imm && !is_int($k)) { // converts like an offset
                        if ($bad ? $x[0] !== TypeError::class : $x !== ['ok', [$in, $in]] && $x !== ['ok', [false, false]]) { $c->fail("$d: containsKey(): " . show_outcome($x)); }
                        break;
                    }
                    expect_outcome($c, "$d: containsKey", ['ok', [$want, $want]], $x);
                } else {
                    expect_outcome($c, "$d: containsKey", ['ok', [$in, $in]], $x);
                    $x = attempt(fn() => $o->get($k, $d));
                    expect_outcome($c, "$d: get with default", ['ok', $in ? $cur : $d], $x);
                    $x = attempt(fn() => $o->get($k));
                    expect_outcome($c, "$d: get", $in ? ['ok', $cur] : [OOB], $x);
                }
                if ($w) { $c->fail("$d: diagnostic {$w[0]}"); }
                break;
            case 'change':
                if ($imm) { break; }
                if (!$seq) {
                    if ($s->int(8) === 7) { $o->clear(); $b->clear(); $mm->clear(); break; }
                    if (!$mm->e || !$mm->sorted) { break; }
                    $p = $mm->pairs();
                    $what = $s->int(2) ? 'pop' : 'shift';
                    $c->say("$what()");
                    $o->$what();
                    $b->$what();
                    $mm->del(($what === 'pop' ? end($p) : $p[0])[0]);
                    break;
                }
                switch ($s->int(6)) {
                    case 0: $c->say('push'); $o->push($v); $b->push($v); $m[] = $v; break;
                    case 1: case 2: $c->say('pushFront'); $o->pushFront($v); $b->pushFront($v); array_unshift($m, $v); break;
                    case 3: if ($m) { $c->say('shift'); $o->shift(); $b->shift(); array_shift($m); } break;
                    case 4: if ($m) { $c->say('pop'); $o->pop(); $b->pop(); array_pop($m); } break;
                    case 5: $p = $s->int(count($m) + 1); $c->say("insert $p"); $o->insert($p, $v, $v); $b->insert($p, $v, $v); array_splice($m, $p, 0, [$v, $v]); break;
                }
                break;
        }
        unset($ref);
        foreach (['operators' => $o, 'methods' => $b] as $n => $x) {
            if ($seq) { if (!same($x->values(), $m)) { $c->fail("$d: the one used by $n is now " . show($x->values()) . ', expected ' . show($m)); } continue; }
            if (!same_keys($x->keys(), $mm->keys()) || !same($x->values(), $mm->vals())) { $c->fail("$d: the one used by $n is now " . show($x->toPairs()) . ', expected ' . show($mm->pairs())); }
        }
        if ($c->warnings) { $c->fail("$d: diagnostic {$c->warnings[0]}"); }
    }
};
