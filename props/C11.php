<?php
// Iterators and foreach loops in progress while the collection is changed, against a model in which an iterator sits on an entry.
function c11_foreach($o) { foreach ($o as $k => $v) { yield [$k, $v]; } }
final class ItModel {
    /** @var array<int, array{int, mixed, mixed}> id, key, value in order */
    public array $e = [];
    public int $nextId = 1;
    /** @var array<int, object> */
    public array $its = [];
    public string $kind;
    public bool $sorted;
    public function __construct(public string $cls) {
        $this->kind = coll_kind($cls);
        $this->sorted = $this->kind === 'sorted' || (($this->kind === 'map' || $this->kind === 'set') && $cls !== Teds\StrictHashMap::class && $cls !== Teds\StrictHashSet::class);
    }
    public function find(int $id): int {
        foreach ($this->e as $i => $x) { if ($x[0] === $id) { return $i; } }
        return -1;
    }
    public function findKey($k): int {
        foreach ($this->e as $i => $x) { if (strict_eq($x[1], $k)) { return $i; } }
        return -1;
    }
    public function insertAt(int $i, $k, $v): void {
        array_splice($this->e, $i, 0, [[$this->nextId++, $k, $v]]);
        foreach ($this->its as $it) { if ($it->st === 'ended' && !$it->loop) { $it->st = 'loose'; } }
    }
    public function removeAt(int $i): void {
        $id = $this->e[$i][0];
        foreach ($this->its as $it) {
            if ($it->st === 'on' && $it->id === $id) {
                $it->removed = true;
                if ($i > 0) { $it->id = $this->e[$i - 1][0]; } else { $it->st = 'front'; }
            }
        }
        array_splice($this->e, $i, 1);
    }
    public function put($k, $v): void {
        $i = $this->findKey($k);
        if ($i >= 0) { $this->e[$i][2] = $this->kind === 'map' ? $v : $this->e[$i][2]; return; }
        $i = count($this->e);
        if ($this->sorted) { $i = 0; while ($i < count($this->e) && ref_compare($this->e[$i][1], $k) < 0) { $i++; } }
        $this->insertAt($i, $k, $v);
    }
    public function loosen(): void { foreach ($this->its as $it) { if ($it->st !== 'fresh' && $it->st !== 'ended') { $it->st = 'loose'; } } }
    public function clear(): void { $this->e = []; $this->loosen(); }
    /** [key, value] an iterator must show at position $i */
    public function at(int $i): array {
        [, $k, $v] = $this->e[$i];
        if ($this->kind === 'seq' || $this->kind === 'sorted') { return [$i, $v]; }
        return [$k, $v];
    }
}
return function (Src $s, Ctx $c): void {
    $cls = $s->pick([Teds\Vector::class, Teds\Deque::class, Teds\LowMemoryVector::class, Teds\IntVector::class, Teds\BitVector::class, Teds\MutableIterable::class, Teds\SortedIntVectorSet::class,
        ...ALL_MAPS, ...ALL_SETS, ...ALL_MAPS, ...ALL_SETS, Teds\ImmutableSequence::class, Teds\ImmutableIterable::class, Teds\ImmutableSortedIntSet::class]);
    $c->label($cls);
    $kind = coll_kind($cls);
    $m = new ItModel($cls);
    $uniq = 0;
    $typed = coll_elem_kinds($cls, 'x');
    $wide = $s->chance(1, 2);
    $val = function () use ($s, &$uniq, $typed, $wide) {
        $uniq++;
        return match ($typed) { 'b' => (bool)$s->int(2), 'i' => $s->chance(1, 3) ? gen_int($s) : $s->range(-20, 20), 's' => "s$uniq", default => $wide ? ($s->chance(1, 3) ? "v$uniq" : $uniq) : $s->int(4) };
    };
    $long = $s->int(1500) === 1499;
    // sizes around those at which storage grows, filled with distinct keys
    $medium = !$long && $s->int(50) === 49;
    $key = function () use ($s, $typed, $wide, $long, $medium) {
        if (($long || $medium) && $s->int(4)) { return $s->int($long ? 3000 : 500); }
        if ($typed === 'i') { return $s->chance(1, 3) ? gen_int($s) : $s->range(-20, 20); }
        if ($wide) { switch ($s->int(5)) { case 0: return gen_str($s); case 1: return $s->int(40) / 4; case 2: return [$s->int(4)]; default: return $s->int(60); } }
        return $s->int(24);
    };
    // construct
    $n0 = $long ? $s->pick([200, 260, 520, 1030]) + $s->int(20) : $s->size(12);
    if ($long) { $c->label('long'); }
    if ($medium) { $n0 = $s->pick([16, 32, 64, 64, 128, 128]) - 14 + $s->int(17); $c->label('medium'); }
    $src = [];
    $step0 = 1 + $s->int(3);
    for ($i = 0; $i < $n0; $i++) {
        if ($medium && $kind !== 'seq') {
            $k = $m->sorted ? $step0 * $i : ($step0 * $i * 7919) % 100003;
            $src[] = $kind === 'map' || $kind === 'pairs' ? [$k, $val()] : $k;
        } elseif ($kind === 'map' || $kind === 'pairs') { $src[] = [$key(), $val()]; } elseif ($kind === 'seq') { $src[] = $val(); } else { $src[] = $key(); }
    }
    $o = $kind === 'map' || $kind === 'pairs' ? $cls::fromPairs($src) : new $cls($src);
    foreach ($src as $i => $x) {
        if ($medium && $kind !== 'seq') { $m->e[] = [$m->nextId++, is_array($x) ? $x[0] : $x, is_array($x) ? $x[1] : $x]; }
        elseif ($kind === 'map') { $m->put($x[0], $x[1]); } elseif ($kind === 'pairs') { $m->insertAt(count($m->e), $x[0], $x[1]); } elseif ($kind === 'seq') { $m->insertAt($i, null, $x); } else { $m->put($x, $x); }
    }
    $c->say("\$o = new $cls: " . show($src));
    if ($s->int(5) === 4) { [$o, $d] = rebirth($s, $o); $c->say("\$o: $d"); }
    $list = function (int $max) use ($s, $val) { $r = []; for ($n = 1 + $s->int($max); $n > 0; $n--) { $r[] = $val(); } return $r; };
    $itn = 0;
    $check = function ($it, string $name) use ($m, $c) {
        // position of an explicit iterator
        if ($it->loop) { return; }
        $g = $it->it;
        switch ($it->st) {
            case 'on':
                if (!$g->valid()) { $c->fail("$name should be on " . show($m->at($m->find($it->id))) . ' but is not valid'); }
                $e = $m->at($m->find($it->id));
                $x = [$g->key(), $g->current()];
                if (!same($x, $e)) { $c->fail("$name should be on " . show($e) . ' but shows ' . show($x)); }
                break;
            case 'ended':
                if ($g->valid()) { $c->fail("$name was at the end but shows " . show([$g->key(), $g->current()])); }
                break;
            case 'loose':
                if ($g->valid()) {
                    $x = [$g->key(), $g->current()];
                    foreach ($m->e as $i => $_) { if (same($m->at($i), $x)) { return; } }
                    $c->fail("$name shows " . show($x) . ' which the collection does not hold');
                }
                break;
        }
    };
    $step = function ($it, string $name) use ($m, $c, $check) {
        // next()
        $n = count($m->e);
        switch ($it->st) {
            case 'on': $i = $m->find($it->id) + 1; break;
            case 'front': $i = 0; break;
            default: $i = -1; break;
        }
        $g = $it->it;
        if ($i >= 0 && $it->removed) { $c->nt(); }
        $it->removed = false;
        $g->next();
        if ($i >= 0) {
            if ($i < $n) { $it->st = 'on'; $it->id = $m->e[$i][0]; } else { $it->st = 'ended'; }
            if ($it->loop) {
                if ($g->valid() !== ($i < $n)) { $c->fail($i < $n ? "$name ended but should come to " . show($m->at($i)) : "$name should have ended but came to " . show($g->current())); }
                if ($i < $n && !same($g->current(), $m->at($i))) { $c->fail("$name should come to " . show($m->at($i)) . ' but came to ' . show($g->current())); }
            } else { $check($it, $name); }
        } elseif ($it->loop) {
            if ($it->st === 'ended' && $g->valid()) { $c->fail("$name goes on after its end"); }
            if ($it->st === 'loose') {
                if (!$g->valid()) { $it->st = 'ended'; return; }
                $x = $g->current();
                foreach ($m->e as $j => $_) { if (same($m->at($j), $x)) { return; } }
                $c->fail("$name came to " . show($x) . ' which the collection does not hold');
            }
        } else { $check($it, $name); }
    };
    $imm = coll_immutable($cls);
    while ($s->more(24)) {
        $n = count($m->e);
        $op = $s->pickw(['new' => count($m->its) < 4 ? 5 : 1, 'step' => $m->its ? 16 : 0, 'run' => $m->its && $n > 12 ? 6 : 0, 'look' => $m->its ? 4 : 0, 'rewind' => $m->its ? 2 : 0, 'drop' => count($m->its) > 2 ? 2 : 0, 'change' => $imm ? 0 : 16, 'clone' => 1, 'key' => $m->its ? 1 : 0]);
        $c->ops++;
        $c->label($op);
        $c->doing = $op;
        $id = $m->its ? $s->pick(array_keys($m->its)) : 0;
        $it = $m->its[$id] ?? null;
        switch ($op) {
            case 'new':
                $itn++;
                $it = (object)['loop' => $s->chance(1, 2), 'st' => 'fresh', 'id' => 0, 'it' => null, 'removed' => false];
                $it->it = $it->loop ? c11_foreach($o) : $o->getIterator();
                $c->say("it$itn = " . ($it->loop ? 'foreach' : 'getIterator()'));
                $m->its[$itn] = $it;
                if ($it->loop) {
                    $it->st = $n ? 'on' : 'ended';
                    if ($n) { $it->id = $m->e[0][0]; }
                    if ($it->it->valid() !== ($n > 0)) { $c->fail("a new foreach over $n entries " . ($n ? 'does not start' : 'starts')); }
                    if ($n && !same($it->it->current(), $m->at(0))) { $c->fail('a new foreach starts with ' . show($it->it->current()) . ' instead of ' . show($m->at(0))); }
                }
                break;
            case 'step':
                if ($it->st === 'fresh') { $it->st = $n ? 'on' : 'ended'; if ($n) { $it->id = $m->e[0][0]; } $check($it, "it$id"); }
                $c->say("it$id next");
                $step($it, "it$id");
                break;
            case 'run':
                if ($it->st === 'fresh') { $it->st = $n ? 'on' : 'ended'; if ($n) { $it->id = $m->e[0][0]; } $check($it, "it$id"); }
                $q = 2 + $s->int($n);
                $c->say("it$id $q times next");
                while ($q-- > 0 && $it->st !== 'ended') { $step($it, "it$id"); }
                break;
            case 'look':
                if ($it->loop) { break; }
                if ($it->st === 'fresh') { $it->st = $n ? 'on' : 'ended'; if ($n) { $it->id = $m->e[0][0]; } }
                $c->say("it$id look");
                $check($it, "it$id");
                break;
            case 'key':
                // current()/key() in any state must be safe
                if ($it->loop) { break; }
                $c->say("it$id current/key");
                if ($it->st === 'fresh') { $it->st = $n ? 'on' : 'ended'; if ($n) { $it->id = $m->e[0][0]; } }
                attempt(fn() => [$it->it->current(), $it->it->key()]);
                $c->takeWarnings();
                break;
            case 'rewind':
                if ($it->loop) { break; }
                $c->say("it$id rewind");
                $it->it->rewind();
                $it->st = $n ? 'on' : 'ended';
                $it->removed = false;
                if ($n) { $it->id = $m->e[0][0]; }
                $check($it, "it$id");
                break;
            case 'drop':
                $c->say("unset(it$id)");
                unset($m->its[$id]);
                break;
            case 'clone':
                if ($imm) { break; }
                // changes to a clone do not touch iterators of the original, and the reverse
                $c->say('clone and change the clone');
                $x = clone $o;
                if ($s->chance(1, 3) && $n) { $y = $x; $x = $o; }       // go on with either
                switch ($kind) {
                    case 'seq': $x2 = clone $o; $x2->push($val()); if ($n) { unset($x2[0]); } break;
                    case 'map': $x2 = clone $o; $x2['zz'] = 1; if ($n) { unset($x2[$m->e[0][1]]); } break;
                    case 'set': $x2 = clone $o; $x2->add('zz'); if ($n) { $x2->remove($m->e[0][1]); } break;
                    case 'sorted': $x2 = clone $o; $x2->add(99); if ($n) { $x2->remove($m->e[0][1]); } break;
                    default: $x2 = clone $o; $x2->push(1, 2); $x2->clear(); break;
                }
                break;
            case 'change':
                $active = 0;
                foreach ($m->its as $q) { $active += $q->st === 'on' || $q->st === 'front' ? 1 : 0; }
                if ($active) { $c->label('change with an iterator in progress'); }
                if ($kind === 'seq') {
                    $k = $s->pickw($n ? ['push' => 5, 'pushFront' => 4, 'insert' => 5, 'pop' => 3, 'shift' => 3, 'unset' => 7, 'set' => 2, 'clear' => 1, 'size' => 1, 'append' => 1] : ['push' => 2, 'pushFront' => 2, 'insert' => 1]);
                    switch ($k) {
                        case 'push': $l = $list($s->chance(1, 8) ? 20 : 3); $c->say('push(' . show($l) . ')'); $o->push(...$l); foreach ($l as $v) { $m->insertAt(count($m->e), null, $v); } break;
                        case 'append': $v = $val(); $c->say('[] = ' . show($v)); $o[] = $v; $m->insertAt($n, null, $v); break;
                        case 'pushFront': $l = $list($s->chance(1, 8) ? 12 : 3); $c->say('pushFront(' . show($l) . ')'); $o->pushFront(...$l); foreach ($l as $v) { $m->insertAt(0, null, $v); } break;
                        case 'insert': $i = $s->int($n + 1); $l = $list($s->chance(1, 8) ? 20 : 3); $c->say("insert($i, " . show($l) . ')'); $o->insert($i, ...$l); foreach ($l as $j => $v) { $m->insertAt($i + $j, null, $v); } break;
                        case 'pop': $c->say('pop()'); $o->pop(); $m->removeAt($n - 1); break;
                        case 'shift': $c->say('shift()'); $o->shift(); $m->removeAt(0); break;
                        case 'unset': $i = $s->int($n); $c->say("unset($i)"); unset($o[$i]); $m->removeAt($i); break;
                        case 'set': $i = $s->int($n); $v = $val(); $c->say("set($i, " . show($v) . ')'); $o->set($i, $v); $m->e[$i][2] = $v; break;
                        case 'clear': $c->say('clear()'); $o->clear(); $m->clear(); break;
                        case 'size':
                            if ($o instanceof Teds\Vector || $o instanceof Teds\BitVector) {
                                $k = $s->int($n + 6);
                                $v = $val();
                                $c->say("setSize($k, " . show($v) . ')');
                                $o->setSize($k, $v);
                                if ($k < $n) { $m->e = array_slice($m->e, 0, $k); $m->loosen(); }
                                for ($i = $n; $i < $k; $i++) { $m->insertAt($i, null, $v); }
                            }
                            break;
                    }
                } elseif ($kind === 'pairs') {
                    $k = $s->pickw($n ? ['push' => 6, 'pop' => 5, 'key' => 2, 'value' => 2, 'clear' => 1, 'size' => 1] : ['push' => 1]);
                    switch ($k) {
                        case 'push': $a = $key(); $v = $val(); $c->say('push(' . show([$a, $v]) . ')'); $o->push($a, $v); $m->insertAt($n, $a, $v); break;
                        case 'pop': $c->say('pop()'); $o->pop(); $m->removeAt($n - 1); break;
                        case 'key': $i = $s->int($n); $a = $key(); $c->say("setKeyAt($i, " . show($a) . ')'); $o->setKeyAt($i, $a); $m->e[$i][1] = $a; break;
                        case 'value': $i = $s->int($n); $v = $val(); $c->say("setValueAt($i, " . show($v) . ')'); $o->setValueAt($i, $v); $m->e[$i][2] = $v; break;
                        case 'clear': $c->say('clear()'); $o->clear(); $m->clear(); break;
                        case 'size':
                            $k = $s->int($n + 4);
                            $c->say("setSize($k)");
                            $o->setSize($k);
                            if ($k < $n) { $m->e = array_slice($m->e, 0, $k); $m->loosen(); }
                            for ($i = $n; $i < $k; $i++) { $m->insertAt($i, null, null); }
                            break;
                    }
                } else {
                    $map = $kind === 'map';
                    $k = $s->pickw($n ? ['put' => 7, 'bulk' => 1, 'over' => 2, 'del' => 9, 'delmany' => 2, 'clear' => 1, 'pop' => 2, 'shift' => 2, 'miss' => 1] : ['put' => 3, 'bulk' => 1]);
                    $del = function (int $i) use ($o, $m, $map) { $x = $m->e[$i][1]; if ($map) { unset($o[$x]); } else { $o->remove($x); } $m->removeAt($i); };
                    switch ($k) {
                        case 'put': $a = $key(); $v = $map ? $val() : $a; $c->say('put ' . show([$a, $v])); if ($map) { $o[$a] = $v; } else { $o->add($a); } $m->put($a, $v); break;
                        case 'bulk': $b = $s->int(100); $q = 5 + $s->int(30); $c->say("put $q keys from $b"); for ($i = 0; $i < $q; $i++) { $a = $b + 2 * $i; if ($map) { $o[$a] = $i; } else { $o->add($a); } $m->put($a, $map ? $i : $a); } break;
                        case 'over': $i = $s->int($n); $v = $val(); $c->say("overwrite entry $i"); if ($map) { $o[$m->e[$i][1]] = $v; $m->e[$i][2] = $v; } else { $o->add($m->e[$i][1]); } break;
                        case 'del': $i = $s->int($n); $c->say('remove ' . show($m->e[$i][1])); $del($i); break;
                        case 'delmany': $i = $s->int($n); $q = 1 + $s->int($n - $i); $c->say("remove $q entries from entry $i"); while ($q-- > 0) { $del($i); } break;
                        case 'miss': $c->say('remove something missing'); if ($map) { attempt(function () use ($o) { unset($o['missing']); }); } elseif ($kind === 'set') { $o->remove('missing'); } break;
                        case 'clear': $c->say('clear()'); $o->clear(); $m->clear(); break;
                        case 'pop': if (method_exists($o, 'pop')) { $c->say('pop()'); $o->pop(); $m->removeAt($n - 1); } break;
                        case 'shift': if (method_exists($o, 'shift')) { $c->say('shift()'); $o->shift(); $m->removeAt(0); } break;
                    }
                }
                if (count($o) !== count($m->e)) { $c->fail('the collection holds ' . count($o) . ' entries instead of ' . count($m->e)); }
                break;
        }
    }
    // every iterator must come to its end with the remaining entries
    $c->say('finish');
    foreach ($m->its as $id => $it) {
        if ($it->st === 'fresh') { $it->st = count($m->e) ? 'on' : 'ended'; if ($m->e) { $it->id = $m->e[0][0]; } }
        $left = 2 * count($m->e) + 10;
        while ($it->st !== 'ended') {
            if ($it->st === 'loose' && !$it->it->valid()) { break; }
            if ($left-- === 0) { $c->fail("it$id does not come to an end"); }
            $step($it, "it$id");
        }
    }
};
