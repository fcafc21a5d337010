<?php
// Failed operations throw, and leave the collection exactly as it was.
return function (Src $s, Ctx $c): void {
    $cls = ALL_CLASSES[$s->int(count(ALL_CLASSES))];
    $kind = coll_kind($cls);
    $c->label($cls);
    $g = new CollGen($s, $c, $cls, 'niifsao', 6);
    [$o, $d] = $g->make(10);
    $c->say($d);
    if (coll_elem_kinds($cls, '') === '' && $s->chance(1, 6) && $kind !== 'heap') { $o = new $cls([]); $c->say("new $cls([])"); }
    while ($s->more(12)) {
        $c->ops++;
        if (!coll_immutable($cls) && $s->chance(1, 3)) {
            $c->doing = 'mutate';
            $c->say($g->mutate($o));
            continue;
        }
        $pairs = coll_pairs($o);
        $before = deep_canon($pairs);
        $n = count($pairs);
        // an iterator in progress is part of the state
        $it = null;
        $pos = 0;
        if ($kind !== 'heap' && $s->chance(1, 2)) {
            $it = $o->getIterator();
            $pos = $s->int($n + 1);
            for ($i = 0; $i < $pos; $i++) { $it->next(); }
            $it->valid();
        }
        if ($s->chance(1, 5)) {
            [$d, $f, $ex] = bad_create($s, $g);
            $keep = false;
        } else {
            [$d, $f, $ex, $keep] = bad_call($s, $g, $o);
        }
        $c->doing = $d;
        $c->say("$d (count $n)" . ($it ? " with an iterator at $pos" : ''));
        if ($n) { $c->nt(); }
        $r = attempt($f);
        unset($f);
        $c->takeWarnings();
        if ($r[0] === 'ok') { $c->fail("$cls: $d did not throw but returned " . show($r[1])); }
        $ok = false;
        foreach ($ex as $x) { if (is_a($r[0], $x, true)) { $ok = true; } }
        if (!$ok) { $c->fail("$cls: $d threw {$r[0]} ({$r[1]}), expected " . implode('|', $ex)); }
        if (in_array(UserError::class, $ex, true) && !str_starts_with($r[1], 'from ')) { $c->fail("$cls: $d lost the user's exception: {$r[1]}"); }
        $c->label($r[0]);
        $after = coll_pairs($o);
        if (deep_canon($after) !== $before) {
            $okk = false;
            if ($keep) {
                // the values before the refused one may stay, in their places
                $old = array_column($pairs, 1);
                $new = array_column($after, 1);
                $m = count($new) - count($old);
                if ($m > 0) {
                    for ($at = 0; $at <= count($old) && !$okk; $at++) {
                        $x = $new;
                        array_splice($x, $at, $m);
                        $okk = $x === $old;
                    }
                }
                $c->label('kept a prefix');
            }
            if (!$okk) { $c->fail("$cls: failed $d changed the contents from " . show($pairs) . ' to ' . show($after)); }
            $it = null;
        }
        if ($it) {
            for ($i = $pos; $it->valid(); $i++) {
                if ($i >= $n || !same($it->current(), $pairs[$i][1]) || !same($it->key(), $pairs[$i][0])) { $c->fail("$cls: after failed $d the iterator at $pos goes on with " . show([$it->key(), $it->current()]) . " as entry $i of " . show($pairs)); }
                $it->next();
            }
            if ($i !== $n) { $c->fail("$cls: after failed $d the iterator at $pos ends after entry $i of $n"); }
        }
        coll_check($c, $o, "after failed $d");
        unset($it, $pairs, $after);
    }
    if (!coll_immutable($cls)) {
        for ($i = 0; $i < 2; $i++) { $c->say($g->mutate($o)); }
        coll_check($c, $o, 'used further');
    }
};
