<?php
// ImmutableIterable and MutableIterable are lists of key/value pairs.
return function (Src $s, Ctx $c): void {
    if ($s->int(2000) === 1999) { large_case($s, $c, [Teds\ImmutableIterable::class, Teds\MutableIterable::class]); return; }
    $keys = new Pool($s, 'niiffssaaoo', 8);
    $vals = $s->chance(1, 4) ? $keys : new Pool($s, 'niiffssaaoo', 8);
    $cls = $s->int(3) === 0 ? Teds\ImmutableIterable::class : Teds\MutableIterable::class;
    $c->label($cls);
    $mut = $cls === Teds\MutableIterable::class;
    $mk = function (int $max) use ($s, $keys, $vals) {
        $r = [];
        for ($n = $s->size($max); $n > 0; $n--) { $r[] = [$s->chance(1, 4) ? count($r) : $keys->any(), $vals->any()]; }
        return $r;
    };
    $build = function () use ($s, $c, $mk, $cls) {
        $m = $mk($s->chance(1, 12) ? 120 : 14);
        switch ($s->int(5)) {
            case 0: [$src, $d] = make_value_source($s, $m); $o = $cls::fromPairs($src); $d = "fromPairs($d)"; break;
            case 1: $o = $cls::__set_state($m); $d = '__set_state'; break;
            case 2: $o = unserialize(serialize($cls::fromPairs($m))); $d = 'unserialize'; $m = $o->toPairs(); break;
            default:
                [$src, $d] = make_source($s, $m);
                if (is_array($src) && $s->chance(1, 2)) { $k = array_key_first($src); if ($k !== null) { unset($src[$k]); array_shift($m); $d .= ', first entry unset'; } }
                $o = new $cls($src);
                $d = "new($d)";
        }
        if ($s->int(5) === 4) { [$o, $x] = rebirth($s, $o); $d .= ", $x"; }
        if ($c->verbose) { $c->say("$cls: $d of " . show($m)); }
        return [$o, $m];
    };
    [$o, $m] = $build();
    $full = function () use (&$o, &$m, $c, $s, $keys, $vals) {
        foreach (['toPairs', 'keys', 'values', 'count', 'isEmpty'] as $q) { pair_query($s, $c, $o, $m, $keys, $vals, $q); }
    };
    $full();
    while ($s->more(18)) {
        $c->ops++;
        $n = count($m);
        if ($n) { $c->nt(); }
        if (!$mut || $s->chance(1, 3)) {
            if ($s->chance(1, 20)) { [$o, $m] = $build(); continue; }
            $c->say(pair_query($s, $c, $o, $m, $keys, $vals));
            continue;
        }
        $op = $s->pickw(['push' => 8, 'pop' => 5, 'setKeyAt' => 4, 'setValueAt' => 4, 'setSize' => 4, 'clear' => 1, 'shrink' => 2, 'clone' => 2, 'bulk' => 2, 'build' => 1, 'drain' => 1]);
        $c->label($op);
        $say = $op;
        $exp = ['ok', null];
        $i = $n && $s->chance(5, 6) ? $s->int($n) : $s->pick([$n, -1, $n + 1, PHP_INT_MAX, PHP_INT_MIN, 1 << 32, (1 << 32) + max(0, $n - 1)]);
        switch ($op) {
            case 'push': $k = $keys->any(); $v = $vals->any(); $act = attempt(fn() => $o->push($k, $v)); $m[] = [$k, $v]; if ($c->verbose) { $say = 'push(' . show($k) . ', ' . show($v) . ')'; } break;
            case 'bulk': $x = $mk(60); $act = attempt(function () use ($o, $x) { foreach ($x as [$k, $v]) { $o->push($k, $v); } }); array_push($m, ...$x); break;
            case 'pop': $exp = $n ? ['ok', array_pop($m)] : [UNDERFLOW]; $act = attempt(fn() => $o->pop()); break;
            case 'drain':
                $k = $s->int($n + 1);
                $act = attempt(function () use ($o, $k) { $r = []; for ($j = 0; $j < $k; $j++) { $r[] = $o->pop(); } return $r; });
                $exp = ['ok', array_reverse(array_slice($m, $n - $k))];
                array_splice($m, $n - $k);
                break;
            case 'setKeyAt': case 'setValueAt':
                $x = ($op === 'setKeyAt' ? $keys : $vals)->any();
                $say = "$op($i, " . ($c->verbose ? show($x) : '') . ')';
                $act = attempt(fn() => $o->$op($i, $x));
                if ($i >= 0 && $i < $n) { $m[$i][$op === 'setKeyAt' ? 0 : 1] = $x; } else { $exp = [OOB]; }
                break;
            case 'setSize':
                $k = $s->chance(1, 10) ? -1 - $s->int(3) : $s->int($n + ($s->chance(1, 5) ? 40 : 4));
                $say = "setSize($k)";
                $act = attempt(fn() => $o->setSize($k));
                if ($k < 0) { $exp = [ValueError::class]; } else { $m = $k <= $n ? array_slice($m, 0, $k) : [...$m, ...array_fill(0, $k - $n, [null, null])]; }
                break;
            case 'clear': $act = attempt(fn() => $o->clear()); $m = []; break;
            case 'shrink': $act = attempt(fn() => $o->shrinkToFit()); break;
            case 'clone': $x = clone $o; $act = ['ok', null]; if ($s->chance(1, 2)) { $o = $x; } break;
            case 'build': [$o, $m] = $build(); $act = ['ok', null]; break;
        }
        $c->doing = $say;
        $c->say($say);
        if ($op === 'setSize' && $act[0] === 'InvalidArgumentException' && $exp[0] === ValueError::class) { $act = $exp; }
        expect_outcome($c, "$cls::$say", $exp, $act);
        if ($o->capacity() < count($m)) { $c->fail("$cls::capacity() is {$o->capacity()} with " . count($m) . ' entries'); }
        $full();
    }
    foreach (['toArray', 'iter', 'iterator', 'json', 'indexOfKey', 'indexOfValue', 'contains'] as $q) { pair_query($s, $c, $o, $m, $keys, $vals, $q); }
};
