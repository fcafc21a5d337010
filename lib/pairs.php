<?php
// Reference model for pair sequences: a plain list of [key, value].

/** What an array built entry by entry from the pairs would be. */
function ref_to_array(array $pairs): array {
    return attempt(function () use ($pairs) { $r = []; foreach ($pairs as [$k, $v]) { $r[$k] = $v; } return $r; });
}
function pair_search(array $m, int $which, $x): ?int {
    foreach ($m as $i => $p) { if ($p[$which] === $x) { return $i; } }
    return null;
}
/** One query of any kind; compares with the model. $o may be ImmutableIterable, MutableIterable or CachedIterable. */
function pair_query(Src $s, Ctx $c, $o, array $m, Pool $keys, Pool $vals, ?string $q = null): string {
    $n = count($m);
    $cls = get_class($o);
    $q ??= $s->pickw(['keyAt' => 4, 'valueAt' => 4, 'keys' => 2, 'values' => 2, 'toPairs' => 2, 'indexOfKey' => 3, 'indexOfValue' => 3, 'containsKey' => 2, 'containsValue' => 1, 'contains' => 2, 'iter' => 3, 'count' => 2, 'isEmpty' => 1, 'toArray' => 2, 'json' => 1, 'iterator' => 2]);
    $what = $q;
    $c->doing = "$cls::$q";
    switch ($q) {
        case 'keyAt': case 'valueAt':
            $i = $n && $s->chance(4, 5) ? $s->int($n) : $s->pick([$n, -1, $n + 1, PHP_INT_MAX, PHP_INT_MIN, 1 << 32, (1 << 32) + max(0, $n - 1), -$n]);
            $what = "$q($i)";
            $e = $i >= 0 && $i < $n ? ['ok', $m[$i][$q === 'keyAt' ? 0 : 1]] : [OOB];
            expect_outcome($c, "$cls::$what", $e, attempt(fn() => $o->$q($i)));
            break;
        case 'keys': expect_outcome($c, "$cls::keys()", ['ok', array_column($m, 0)], attempt(fn() => $o->keys())); break;
        case 'values': expect_outcome($c, "$cls::values()", ['ok', array_column($m, 1)], attempt(fn() => $o->values())); break;
        case 'toPairs': expect_outcome($c, "$cls::toPairs()", ['ok', $m], attempt(fn() => $o->toPairs())); break;
        case 'json': expect_outcome($c, "$cls::jsonSerialize()", ['ok', $m], attempt(fn() => $o->jsonSerialize())); break;
        case 'indexOfKey': case 'indexOfValue': case 'containsKey': case 'containsValue': case 'contains':
            $w = str_ends_with($q, 'Key') ? 0 : 1;
            $x = no_nested_nan($n && $s->chance(1, 2) ? fresh_copy($m[$s->int($n)][$w]) : ($w ? $vals : $keys)->probe());
            $what = "$q(" . ($c->verbose ? show($x) : '') . ')';
            $i = pair_search($m, $w, $x);
            expect_outcome($c, "$cls::$what", ['ok', $q[0] === 'i' ? $i : $i !== null], attempt(fn() => $o->$q($x)));
            break;
        case 'iter':
            $stop = $s->chance(1, 2) ? $n : $s->int($n + 1);
            $i = 0;
            foreach ($o as $k => $v) {
                if ($i >= $n) { $c->fail("$cls: foreach yields more than $n entries"); }
                if (!same($k, $m[$i][0]) || !same($v, $m[$i][1])) { $c->fail("$cls: foreach yields " . show([$k, $v]) . " as entry $i, expected " . show($m[$i])); }
                if (++$i > $stop) { break; }
            }
            if ($stop === $n && $i !== $n) { $c->fail("$cls: foreach stopped after $i of $n entries"); }
            break;
        case 'iterator':
            $it = $o->getIterator();
            $stop = $s->int($n + 2);
            if ($s->chance(1, 2)) { $it->rewind(); }
            for ($i = 0; $i < $stop; $i++) {
                if ($it->valid() !== ($i < $n)) { $c->fail("$cls: iterator valid() is wrong at $i of $n"); }
                if ($i >= $n) { break; }
                if ($s->chance(1, 2) && !same($it->key(), $m[$i][0])) { $c->fail("$cls: iterator key at $i is " . show($it->key()) . ', expected ' . show($m[$i][0])); }
                if (!same($it->current(), $m[$i][1])) { $c->fail("$cls: iterator value at $i is " . show($it->current()) . ', expected ' . show($m[$i][1])); }
                $it->next();
            }
            break;
        case 'count': expect_outcome($c, "count($cls)", ['ok', [$n, $n]], attempt(fn() => [count($o), $o->count()])); break;
        case 'isEmpty': expect_outcome($c, "$cls::isEmpty()", ['ok', $n === 0], attempt(fn() => $o->isEmpty())); break;
        case 'toArray':
            $c->takeWarnings();
            $e = ref_to_array($m);
            $w1 = count($c->takeWarnings());
            $a = attempt(fn() => $o->toArray());
            $w2 = count($c->takeWarnings());
            expect_outcome($c, "$cls::toArray()", $e, $a);
            if ($w1 !== $w2) { $c->fail("$cls::toArray() raised $w2 diagnostics, an array built the same way raises $w1"); }
            break;
    }
    return $what;
}
