<?php
// The Empty* singletons against empty collections of the same kind.
return function (Src $s, Ctx $c): void {
    $cls = $s->pick([Teds\EmptySequence::class, Teds\EmptySet::class, Teds\EmptyMap::class]);
    $short = substr($cls, 5);
    $o = $cls::INSTANCE;
    $pool = new Pool($s, 'niiffssaaoor', 8);
    $model = fn() => match ($cls) { Teds\EmptySequence::class => new Teds\ImmutableSequence([]), Teds\EmptySet::class => new Teds\StrictHashSet([]), default => new Teds\StrictHashMap([]) };
    $called = false;
    $cb = function (...$a) use (&$called) { $called = true; return $a; };
    $seq = $cls === Teds\EmptySequence::class;
    $map = $cls === Teds\EmptyMap::class;
    $arg = fn() => $s->chance(1, 3) ? $s->pick([0, 1, -1, '0', '1', 1.0, 0.0, true, false, null, 'abc', '', PHP_INT_MAX, PHP_INT_MIN, [], new Obj(), '1.5', ' 1', NAN]) : $pool->probe();
    while ($s->more(20)) {
        $c->ops++;
        $c->nt();
        $ops = ['count' => 1, 'isEmpty' => 1, 'toArray' => 1, 'values' => 1, 'jsonSerialize' => 1, 'contains' => 4, 'foreach' => 2, 'iterator' => 2, 'identity' => 2, 'source' => 2, 'functions' => 2, 'clear' => 1, 'views' => 1, 'itmethods' => 2];
        if ($seq) { $ops += ['get' => 3, 'indexOf' => 3, 'first' => 1, 'last' => 1, 'map' => 2, 'filter' => 2, 'seqmut' => 4]; }
        if ($seq || $map) { $ops += ['offsetGet' => 4, '[]' => 4, 'offsetExists' => 4, 'isset' => 4, 'empty' => 3, '??' => 3, 'containsKey' => 3, 'write' => 4]; }
        if ($map) { $ops += ['keys' => 1, 'get' => 4, 'unset' => 4]; }
        if ($cls === Teds\EmptySet::class) { $ops += ['add' => 3, 'remove' => 3]; }
        $op = $s->pickw($ops);
        $k = $arg();
        $v = $arg();
        $d = "$short $op " . ($c->verbose ? show($k) : '');
        $c->say($d);
        $c->doing = $d;
        $like = function (Closure $f) use ($c, $d, $model, $o) {
            $e = attempt(fn() => $f($model()));
            $we = $c->takeWarnings();
            $a = attempt(fn() => $f($o));
            $wa = $c->takeWarnings();
            if ($e[0] !== 'ok') { if ($a[0] !== $e[0]) { $c->fail("$d: expected {$e[0]} as from the empty " . get_class($model()) . ', got ' . show_outcome($a)); } }
            else { expect_outcome($c, $d . ' (like an empty ' . get_class($model()) . ')', $e, $a); }
            if (count($we) !== count($wa)) { $c->fail("$d: diagnostics " . show($wa) . ', expected ' . show($we)); }
        };
        $refuse = function (Closure $f, array $ex) use ($c, $d) {
            $a = attempt($f);
            $c->takeWarnings();
            foreach ($ex as $x) { if ($a[0] === $x) { return; } }
            $c->fail("$d: expected " . implode(' or ', $ex) . ', got ' . show_outcome($a));
        };
        switch ($op) {
            case 'count': $like(fn($x) => [$x->count(), count($x), $x->count()]); break;
            case 'isEmpty': case 'toArray': case 'values': case 'keys': $like(fn($x) => $x->$op()); break;
            case 'jsonSerialize': $like(fn($x) => $x->jsonSerialize()); $like(fn($x) => json_encode([$x, 'a' => $x])); break;
            case 'contains': case 'indexOf': $like(fn($x) => $x->$op($k)); break;
            case 'containsKey': case 'offsetExists': case 'offsetGet': $like(fn($x) => $x->$op($k)); break;
            case '[]': $like(fn($x) => $x[$k]); break;
            case 'isset': $like(fn($x) => isset($x[$k])); break;
            case 'empty': $like(fn($x) => empty($x[$k])); break;
            case '??': $like(fn($x) => $x[$k] ?? 'default'); break;
            case 'first': case 'last': $like(fn($x) => $x->$op()); break;
            case 'get':
                if ($seq) { $like(fn($x) => $x->get($k)); break; }
                if ($s->int(2)) { $like(fn($x) => $x->get($k)); } else { $like(fn($x) => $x->get($k, $v)); }
                break;
            case 'clear': if (($r = attempt(fn() => $o->clear())) !== ['ok', null]) { $c->fail("$d: " . show_outcome($r)); } break;
            case 'unset':
                $like(function ($x) use ($k) { unset($x[$k]); });
                $like(fn($x) => $x->offsetUnset($k));
                break;
            case 'add': $refuse(fn() => $o->add($k), [UNSUPPORTED]); break;
            case 'remove': $like(fn($x) => $x->remove($k)); break;
            case 'write':
                $ex = $seq ? [UNSUPPORTED, OOB, TypeError::class] : [UNSUPPORTED];
                match ($s->int($seq ? 7 : 6)) {
                    0 => $refuse(function () use ($o, $k, $v) { $o[$k] = $v; }, $ex),
                    1 => $refuse(fn() => $o->offsetSet($k, $v), $ex),
                    2 => $refuse(function () use ($o, $v) { $o[] = $v; }, [UNSUPPORTED, OOB]),
                    3 => $refuse(function () use ($o, $k, $v) { $o[$k][] = $v; }, [...$ex, OOB]),
                    4 => $refuse(function () use ($o, $v) { $o[][0] = $v; }, [UNSUPPORTED, OOB]),
                    5 => $refuse(function () use ($o, $v) { $r = &$o[]; $r = $v; }, [UNSUPPORTED, OOB]),
                    6 => $refuse(function () use ($o, $k, $s) { if ($s->int(2)) { unset($o[$k]); } else { $o->offsetUnset($k); } }, $ex),
                };
                break;
            case 'seqmut':
                $i = $s->pick([0, 1, -1, PHP_INT_MAX]);
                match ($s->int(8)) {
                    0 => $refuse(fn() => $o->push($k), [UNSUPPORTED]), 1 => $refuse(fn() => $o->pushFront($k, $v), [UNSUPPORTED]), 2 => $refuse(fn() => $o->unshift($k), [UNSUPPORTED]),
                    3 => $refuse(fn() => $o->pop(), [UNSUPPORTED, UNDERFLOW]), 4 => $refuse(fn() => $o->shift(), [UNSUPPORTED, UNDERFLOW]), 5 => $refuse(fn() => $o->popFront(), [UNSUPPORTED, UNDERFLOW]),
                    6 => $refuse(fn() => $o->insert($i, $k), [UNSUPPORTED, OOB]), 7 => $refuse(fn() => $o->set($i, $k), [UNSUPPORTED, OOB]),
                };
                break;
            case 'map': case 'filter':
                $r = attempt(fn() => $op === 'filter' && $s->int(2) ? ($s->int(2) ? $o->filter() : $o->filter(null)) : $o->$op($cb));
                if ($r[0] !== 'ok' || !$r[1] instanceof Teds\Sequence || count($r[1]) !== 0 || $called) { $c->fail("$d: " . show_outcome($r) . ($called ? ' after calling the callback' : '')); }
                break;
            case 'itmethods':
                for ($j = $s->int(4); $j >= 0; $j--) {
                    match ($s->int(5)) {
                        0 => expect_outcome($c, "$short::valid", ['ok', false], attempt(fn() => $o->valid())),
                        1 => expect_outcome($c, "$short::next", ['ok', null], attempt(fn() => $o->next())),
                        2 => expect_outcome($c, "$short::rewind", ['ok', null], attempt(fn() => $o->rewind())),
                        3 => $refuse(fn() => $o->current(), [OOB, UNDERFLOW]), 4 => $refuse(fn() => $o->key(), [OOB, UNDERFLOW]),
                    };
                }
                break;
            case 'foreach':
                foreach ($o as $x) { $c->fail("$short iterates"); }
                foreach ($o as $y => $x) { $c->fail("$short iterates"); }
                $l = [...$o];
                foreach ((function () use ($o) { yield from $o; })() as $x) { $c->fail('yield from iterates'); }
                $refuse(function () use ($o) { foreach ($o as &$x) { } }, [Error::class]);
                break;
            case 'iterator':
                $r = match ($s->int(7)) {
                    0 => iterator_count($o), 1 => count(iterator_to_array($o)), 2 => count(iterator_to_array($o, false)), 3 => iterator_count(new IteratorIterator($o)),
                    4 => iterator_count(new NoRewindIterator($o)), 5 => iterator_apply($o, $cb, [1]), 6 => iterator_count(new LimitIterator($o, 0, 5)),
                };
                if ($r !== 0 || $called) { $c->fail("$short: an iterator sees $r elements"); }
                break;
            case 'identity':
                $x = match ($s->int(6)) {
                    0 => $cls::cases()[0], 1 => constant("$cls::INSTANCE"), 2 => unserialize(serialize($o)), 3 => unserialize(serialize([1, [$o]]))[1][0],
                    4 => eval('return ' . var_export($o, true) . ';'), 5 => (new Teds\Vector([$o]))[0],
                };
                if ($x !== $o || count($cls::cases()) !== 1 || $o->name !== 'INSTANCE') { $c->fail("$short: not the one instance"); }
                $refuse(fn() => clone $o, [Error::class]);
                $refuse(fn() => new $cls(), [Error::class]);
                $refuse(function () use ($o) { $o->prop = 1; }, [Error::class]);
                break;
            case 'source':
                $t = $s->pick([Teds\Vector::class, Teds\Deque::class, Teds\ImmutableSequence::class, Teds\StrictHashSet::class, Teds\StrictHashMap::class, Teds\StrictTreeMap::class, Teds\StrictTreeSet::class, Teds\IntVector::class, Teds\BitVector::class, Teds\LowMemoryVector::class, Teds\ImmutableIterable::class, Teds\MutableIterable::class, Teds\CachedIterable::class, Teds\StrictMinHeap::class, Teds\StrictSortedVectorSet::class, Teds\StrictSortedVectorMap::class, Teds\ImmutableSortedStringSet::class, Teds\ImmutableSortedIntSet::class, Teds\SortedIntVectorSet::class]);
                $c->doing = "new $t($short)";
                $x = new $t($o);
                if (count($x) !== 0 || !$x->isEmpty() || $x->toArray() !== []) { $c->fail("new $t($short::INSTANCE) is not empty"); }
                break;
            case 'functions':
                $r = [Teds\any($o), Teds\all($o), Teds\none($o), Teds\any($o, $cb), Teds\all($o, $cb), Teds\none($o, $cb), Teds\find($o, $cb, $v), Teds\fold($o, $cb, $k), Teds\includes_value($o, $k), Teds\unique_values($o)];
                if (!same($r, [false, true, true, false, true, true, $v, $k, false, []]) || $called) { $c->fail("functions over $short: " . show($r)); }
                break;
            case 'views':
                ob_start();
                var_dump($o);
                $t = ob_get_clean();
                if ($t !== "enum($cls::INSTANCE)\n") { $c->fail("var_dump($short) is $t"); }
                if ((array)$o !== [] && (array)$o !== ['name' => 'INSTANCE']) { $c->fail("(array)$short: " . show((array)$o)); }
                if (var_export($o, true) !== "\\$cls::INSTANCE") { $c->fail("var_export($short): " . var_export($o, true)); }
                break;
        }
        if (count($o) !== 0 || !$o->isEmpty() || $o->toArray() !== []) { $c->fail("after $d it is not empty"); }
    }
};
