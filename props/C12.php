<?php
// User code that runs inside an operation uses the same collection: nothing may crash, hang, or leave a broken collection.
return function (Src $s, Ctx $c): void {
    $cls = ALL_CLASSES[$s->int(count(ALL_CLASSES))];
    $kind = coll_kind($cls);
    $c->label($cls);
    $typed = coll_elem_kinds($cls, 'x') !== 'x';
    Bombs::$armed = false;
    Bombs::$depth = 0;
    Bombs::$fuel = 60;
    $n = 0;
    $g = new CollGen($s, $c, $cls, 'iisf', 4);
    // pools that contain bombs are useless (the pool would keep them alive): make them on the spot
    $val = function () use ($s, $g, $typed, &$n) {
        if ($typed) { return $g->val(); }
        switch ($s->int(6)) {
            case 0: return $g->val();
            case 1: return [new Bomb($n++, true), 1];
            default: return new Bomb($n++);
        }
    };
    $g->callVal = $typed ? null : $val;
    $key = function () use ($s, $val, $typed) { return $s->chance(1, 2) ? $val() : $s->pick([0, 1, 2, 3, 4, 5, 6, 7, 1.5, 'a', '1', true, null]); };
    $pairsOf = function (int $max) use ($s, $val, $key) { $r = []; for ($k = $s->int(1500) === 1499 ? 200 + $s->int(400) : $s->size($max); $k > 0; $k--) { $r[] = [$key(), $val()]; } return $r; };
    $make = function (?array $pairs = null) use ($cls, $kind, $pairsOf, $s) {
        $pairs ??= $pairsOf(10);
        if ($cls === Teds\CachedIterable::class) { return new $cls($s->chance(1, 2) ? bomb_gen($pairs) : new BombIter($pairs)); }
        if ($kind === 'map' || $kind === 'pairs') { return $s->chance(1, 2) ? $cls::fromPairs($pairs) : new $cls(bomb_gen($pairs)); }
        return new $cls($s->chance(1, 2) ? array_column($pairs, 1) : new BombIter($pairs));
    };
    $h = (object)['o' => null, 'other' => null, 'its' => [], 'building' => false];
    // one direct change or read of the collection; never nests by itself, but what it releases may fire
    $basic = function (string $why) use ($s, $c, $h, $cls, $kind, $val, $key, $make, $pairsOf, $g) {
        $o = $h->o;
        if ($o === null) { $h->o = $make(); return; }
        $n = attempt(fn() => count($o))[1];
        if (!is_int($n)) { $n = 0; }
        $imm = coll_immutable($cls);
        $op = $s->pickw(['add' => $imm ? 0 : 8, 'del' => $imm ? 0 : 8, 'over' => $imm ? 0 : 4, 'clear' => $imm ? 0 : 4, 'size' => $imm ? 0 : 2, 'many' => $imm ? 0 : 3, 'drain' => $imm ? 0 : 1,
            'read' => 4, 'clone' => 2, 'serialize' => 1, 'dump' => 1, 'release' => 2, 'iterate' => 2, 'step' => 3, 'gc' => 1, 'reconstruct' => 1, 'fresh' => 1, 'lookup' => 2, 'shrink' => 1, 'call' => 3, 'operator' => 1]);
        $c->label("$op");
        $c->say(str_repeat('  ', Bombs::$depth) . "$why: $op");
        $c->doing = "$why: $op";
        try {
            switch ($op) {
                case 'add':
                    switch ($kind) {
                        case 'seq': match ($s->int(4)) { 0 => $o->pushFront($val(), $val()), 1 => $o->insert($s->int($n + 1), $val(), $val()), 2 => $o[] = $val(), default => $o->push($val(), $val(), $val()) }; break;
                        case 'pairs': $o->push($key(), $val()); break;
                        case 'map': $o[$key()] = $val(); break;
                        default: $o->add($val()); break;
                    }
                    break;
                case 'many':
                    for ($i = 0; $i < 20; $i++) {
                        switch ($kind) { case 'seq': $o->push($val()); break; case 'pairs': $o->push($i, $val()); break; case 'map': $o[$i] = $val(); break; default: $o->add($g->kind === 'sorted' ? $i : ($kind === 'set' ? $i : $val())); break; }
                    }
                    break;
                case 'del':
                    switch ($kind) {
                        case 'seq': match ($s->int(3)) { 0 => $o->pop(), 1 => $o->shift(), default => $o->offsetUnset($s->int($n + 1)) }; break;
                        case 'heap': match ($s->int(2)) { 0 => $o->extract(), default => $o->next() }; break;
                        case 'map':
                            if ($s->int(3) === 0 && method_exists($o, 'pop')) { $s->int(2) ? $o->pop() : $o->shift(); break; }
                            $k = $o->keys();
                            if ($k) { $q = $k[$s->int(count($k))]; unset($k); unset($o[$q]); }
                            break;
                        case 'pairs': $o->pop(); break;
                        default:
                            if ($s->int(3) === 0 && method_exists($o, 'pop')) { $s->int(2) && method_exists($o, 'shift') ? $o->shift() : $o->pop(); break; }
                            $k = $o->values();
                            if ($k) { $q = $k[$s->int(count($k))]; unset($k); $o->remove($q); }
                            break;
                    }
                    break;
                case 'drain': while (count($o)) { match ($kind) { 'seq', 'pairs' => $o->pop(), 'heap' => $o->extract(), default => $o->clear() }; } break;
                case 'over':
                    switch ($kind) {
                        case 'seq': $s->int(2) ? $o->set($s->int($n + 1), $val()) : ($o[$s->int($n + 1)] = $val()); break;
                        case 'pairs': $s->int(2) ? $o->setKeyAt($s->int($n + 1), $val()) : $o->setValueAt($s->int($n + 1), $val()); break;
                        case 'map': $k = $o->keys(); if ($k) { $o[$k[$s->int(count($k))]] = $val(); } break;
                        default: $o->add($val()); break;
                    }
                    break;
                case 'clear': $o->clear(); break;
                case 'size': if (method_exists($o, 'setSize')) { $kind === 'pairs' ? $o->setSize($s->int($n + 3)) : $o->setSize($s->int($n + 3), $val()); } break;
                case 'shrink': foreach (['shrinkToFit', 'reserve'] as $f) { if (method_exists($o, $f)) { $f === 'reserve' ? $o->reserve($s->int(50)) : $o->shrinkToFit(); } } break;
                case 'read': match ($s->int(4)) { 0 => $o->values(), 1 => coll_pairs($o), 2 => $o->toArray(), default => (array)$o }; break;
                case 'lookup': $kind === 'map' ? [$o->containsKey($key()), $o->contains($val()), isset($o[$key()]), $o->get($key(), 1)] : ($kind === 'seq' ? [$o->contains($val()), $o->indexOf($val()), isset($o[1.5]), $o[1.5], $o['0']] : $o->contains($val())); break;
                case 'clone': $x = clone $o; if (!$h->building && $s->chance(1, 3)) { $h->o = $x; } break;
                case 'serialize':
                    // PHP itself crashes when a destructor that runs at the end of serialize() calls serialize()
                    if (Bomb::$dying) { break; }
                    $x = unserialize(serialize($o)); break;
                case 'dump':
                    // PHP makes it a fatal error when a dump throws (a source that fails) before it shows an object with __debugInfo
                    if ($cls === Teds\CachedIterable::class) { $o->toPairs(); }
                    match ($s->int(3)) { 0 => json_encode($o), 1 => var_export($o, true), default => print_r($o, true) }; break;
                case 'release': $h->o = null; unset($o); $h->its = []; break;
                case 'fresh': unset($o); $h->o = $make(); break;
                case 'iterate': $i = 0; foreach ($o as $k => $v) { if (++$i > 4) { break; } if ($kind !== 'heap') { Bombs::fire('body'); } } break;
                case 'step':
                    if ($kind === 'heap') { $o->next(); break; }
                    if (count($h->its) < 3) { $h->its[] = $o->getIterator(); }
                    $it = $h->its[$s->int(count($h->its))];
                    $it->next();
                    if ($it->valid()) { $it->current(); $it->key(); }
                    break;
                case 'gc': gc_collect_cycles(); break;
                case 'call': $g->call($o); break;
                case 'operator': $g->operator($o); break;
                case 'reconstruct': $o->__construct($s->int(2) ? array_column($pairsOf(4), 1) : bomb_gen($pairsOf(4))); break;
            }
        } catch (Fail | Discard $e) {
            throw $e;
        } catch (Throwable $t) {
        }
    };
    Bombs::$act = function (string $why) use ($basic, $s, $c) {
        $c->nt();
        $c->label("in $why");
        for ($k = 1 + $s->int(2); $k > 0; $k--) { $basic($why); }
        if ($s->chance(1, 12)) { throw new DomainException('from user code'); }
    };
    $old = set_error_handler(function () { Bombs::fire('error handler'); return true; });
    try {
        Bombs::$armed = true;
        attempt(function () use ($h, $make, $s) { $h->o = $make(); if ($s->int(6) === 5) { [$h->o] = rebirth($s, $h->o, false); } });
        while ($s->more(12)) {
            $c->ops++;
            $top = $s->pickw(['basic' => 10, 'map' => in_array($cls, [Teds\Vector::class, Teds\ImmutableSequence::class, Teds\LowMemoryVector::class, Teds\Deque::class], true) ? 3 : 0, 'func' => 3, 'uninit' => 1, 'link' => 1, 'nested' => 1]);
            $c->label($top);
            Bombs::$armed = true;
            switch ($top) {
                case 'basic': attempt(fn() => $basic('top')); break;
                case 'map':
                    if (!$h->o) { break; }
                    $f = $s->pick(['map', 'filter']);
                    if (!method_exists($h->o, $f)) { break; }
                    $c->say($f);
                    $c->doing = $f;
                    attempt(function () use ($h, $f, $s, $val) {
                        $r = $h->o->$f($s->chance(1, 4) ? function (&$x) use ($s, $val) { Bombs::fire('callback'); $x = 5; return $x; } : function ($x) use ($s, $val) { Bombs::fire('callback'); return $s->int(2) ? $x : $val(); });
                        $h->other = $r;
                    });
                    break;
                case 'func':
                    if (!$h->o) { break; }
                    $f = $s->pick(['any', 'all', 'none', 'find', 'fold', 'includes_value', 'unique_values', 'any', 'find', 'fold']);
                    $arg = $h->o;
                    if ($s->int(4) === 0) { Bombs::$armed = false; $r = attempt(fn() => coll_pairs($h->o)); if ($r[0] === "ok") { $arg = $r[1]; } Bombs::$armed = true; }
                    $c->say("Teds\\$f(" . (is_array($arg) ? 'array' : 'collection') . ')');
                    $c->doing = "Teds\\$f";
                    attempt(function () use ($h, &$arg, $f, $s, $val) {
                        $cb = $s->chance(1, 5) ? function (&$x) { Bombs::fire('callback'); $x = [7]; return false; } : function ($x, $y = null) use ($s, $f, $val, &$arg) {
                            Bombs::fire('callback');
                            if ($s->chance(1, 8)) { $arg = null; }
                            return $f === 'fold' ? ($s->int(2) ? $val() : $x) : $s->chance(1, 6) === ($f === 'any' || $f === 'none' || $f === 'find');
                        };
                        $fn = "Teds\\$f";
                        $r = match ($f) {
                            'fold' => $fn($arg, $cb, $val()), 'includes_value' => $fn($arg, 5), 'unique_values' => $fn($arg),
                            'any', 'all', 'none' => $s->chance(1, 6) ? $fn($arg) : $fn($arg, $cb), default => $fn($arg, $cb),
                        };
                        $h->other = $r;
                    });
                    attempt(function () use (&$arg) { $arg = null; });
                    break;
                case 'uninit':
                    // a collection reached by user code before its __unserialize() ran
                    $c->say('construct an unfinished object');
                    $c->doing = 'construct an unfinished object';
                    Stash::$act = function ($x) use ($h, $s, $pairsOf) {
                        if (!is_object($x)) { return; }
                        $h->o = $x;
                        $h->its = [];
                        $p = $pairsOf(6);
                        // while the constructor runs the object is not a collection yet: a copy made meanwhile has no obligations
                        $h->building = true;
                        try { $x->__construct($s->int(2) ? bomb_gen($p) : new BombIter($p)); } finally { $h->building = false; }
                    };
                    attempt(fn() => unserialize('O:' . strlen($cls) . ":\"$cls\":1:{i:0;O:5:\"Stash\":1:{i:0;r:1;}}"));
                    attempt(function () { Stash::$act = null; });
                    attempt(function () { Stash::$got = []; });
                    break;
                case 'link':
                    // cycles: the collection holds an object that holds the collection
                    if (!$h->o || coll_immutable($cls) || $typed) { break; }
                    $c->say('make a cycle');
                    attempt(function () use ($h, $kind) {
                        $b = new Bomb(99);
                        $b->link = $h->o;
                        switch ($kind) { case 'seq': $h->o->push($b); break; case 'pairs': $h->o->push(1, $b); break; case 'map': $h->o['cycle'] = $b; break; default: $h->o->add($b); break; }
                    });
                    break;
                case 'nested':
                    // the last reference disappears inside a method call
                    if (!$h->o) { break; }
                    $c->say('release inside a method call');
                    $c->doing = 'release inside a method call';
                    attempt(function () use ($h, $kind, $s) {
                        $rel = function () use ($h) { $h->o = null; $h->its = []; return 0; };
                        switch ($kind) {
                            case 'seq': match ($s->int(3)) { 0 => $h->o[$rel()], 1 => $h->o->get($rel()), default => isset($h->o[$rel()]) }; break;
                            case 'map': match ($s->int(3)) { 0 => $h->o[$rel()], 1 => $h->o->containsKey($rel()), default => isset($h->o[$rel()]) }; break;
                            default: $h->o->contains($rel()); break;
                        }
                    });
                    break;
            }
            Bombs::$armed = false;
            $c->doing = 'validate';
            if ($h->o && $cls === Teds\CachedIterable::class) {
                // a source that failed makes every complete reading fail
                foreach (['count', 'toPairs', 'values', 'keys', 'toArray'] as $f) { $r = attempt(fn() => $h->o->$f()); if ($r[0] !== 'ok') { break; } }
                if ($r[0] === 'ok') { coll_check($c, $h->o, 'after re-entrant use'); }
            } elseif ($h->o) { coll_check($c, $h->o, 'after re-entrant use'); }
            if ($h->other instanceof Teds\CachedIterable && attempt(fn() => $h->other->count())[0] !== 'ok') { /* its source failed */ }
            elseif (is_object($h->other) && in_array(get_class($h->other), ALL_CLASSES, true)) { coll_check($c, $h->other, 'result of a re-entrant call'); }
            if (Bombs::$fuel <= 0) { break; }
        }
        Bombs::$armed = false;
        if ($h->o && !coll_immutable($cls)) {
            $c->doing = 'continue to use';
            for ($i = 0; $i < 3; $i++) { $c->say($g->mutate($h->o)); }
            coll_check($c, $h->o, 'used further');
        }
        foreach ($h->its as $it) { $run = function () use ($it) { for ($i = 0; $i < 60 && $it->valid(); $i++) { $it->current(); $it->next(); } };
            if ($cls === Teds\CachedIterable::class) { attempt($run); } else { $run(); } }
        if ($h->o && !coll_immutable($cls) && $h->o->count()) { $h->o->clear(); }
        $h->other = null;
        $h->its = [];
        Bombs::$armed = true;
        $c->doing = 'destroy';
        attempt(function () use ($h) { $h->o = null; });
    } finally {
        restore_error_handler();
        Bombs::$armed = false;
        Bombs::$act = null;
        Stash::$act = null;
        Stash::$got = [];
        $h->o = $h->other = null;
        $h->its = [];
    }
};
