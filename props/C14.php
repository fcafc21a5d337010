<?php
// Immutable collections never change, whatever is called on them.
function c14_methods(string $cls): array {
    static $m = [];
    if (!isset($m[$cls])) {
        foreach ((new ReflectionClass($cls))->getMethods() as $r) {
            if ($r->isStatic()) { continue; }
            $m[$cls][] = [$r->getName(), array_map(fn($p) => [(string)($p->getType() ?? ''), $p->isVariadic()], $r->getParameters())];
        }
    }
    return $m[$cls];
}
function c14_image($o): string {
    $r = [count($o), $o->isEmpty(), $o->values()];
    if ($o instanceof Teds\ImmutableIterable) { $r[] = $o->toPairs(); $r[] = $o->keys(); }
    if (!$o instanceof UnitEnum) { $x = []; foreach ($o as $k => $v) { $x[] = [$k, $v]; } $r[] = $x; }
    else { $x = []; foreach ($o as $k => $v) { $x[] = 1; } $r[] = $x; }
    return deep_canon($r);
}
/** Names of methods that would change a mutable collection of that kind when the arguments ask for a change. */
const C14_MUTATORS = ['push', 'pushFront', 'unshift', 'insert', 'set', 'offsetSet', 'add', 'pop', 'shift', 'popFront'];

return function (Src $s, Ctx $c): void {
    $classes = [Teds\ImmutableSequence::class, Teds\ImmutableIterable::class, Teds\ImmutableSortedIntSet::class, Teds\ImmutableSortedStringSet::class];
    if ($s->int(3) === 0) { indep_run($s, $c, $classes, 10); return; }
    $all = [...$classes, Teds\EmptySequence::class, Teds\EmptySet::class, Teds\EmptyMap::class];
    $cls = $all[$s->int(count($all))];
    $c->label($cls);
    $enum = is_a($cls, UnitEnum::class, true);
    $vals = new Pool($s, 'niifssao', 6);
    if ($enum) {
        $o = $cls::cases()[0];
    } else {
        $g = new CollGen($s, $c, $cls, 'niifssao', 6);
        [$o, $d] = $g->make(10);
        $c->say($d);
        $vals = $s->chance(1, 2) ? $g->vals : $vals;
    }
    $image = c14_image($o);
    $n = count($o);
    $methods = c14_methods($cls);
    $it = $enum ? null : $o->getIterator();
    while ($s->more(14)) {
        $c->ops++;
        if ($n || $enum) { $c->nt(); }
        $k = $s->int(20);
        $needs = false;
        if ($k < 14) {
            [$name, $params] = $methods[$s->int(count($methods))];
            $args = [];
            foreach ($params as [$type, $variadic]) {
                $times = $variadic ? $s->int(4) : 1;
                for (; $times > 0; $times--) {
                    $args[] = match (true) {
                        $s->chance(1, 12) => $vals->any(),
                        $type === 'int' => $s->chance(3, 4) ? $s->int($n + 2) : gen_int($s),
                        $type === 'callable', $type === '?callable' => function (&$x = null, &$y = null) { $x = 'cb'; $y = 'cb'; return true; },
                        str_contains($type, 'array') => $s->chance(1, 2) ? [1, 'a', [2]] : [$vals->any()],
                        $type === 'string' => gen_str($s),
                        default => $s->chance(1, 3) ? $s->int($n + 1) : $vals->any(),
                    };
                }
            }
            $d = "$name(" . ($c->verbose ? implode(', ', array_map('show', $args)) : '') . ')';
            // with a value to add, or an entry to remove, a mutator cannot quietly succeed
            $needs = in_array($name, C14_MUTATORS, true) && ($name === 'insert' ? count($args) > 1 : (count($args) > 0 || str_starts_with($name, 'pop') || $name === 'shift'));
            if (in_array($name, ['clear', 'remove', 'offsetUnset'], true)) { $needs = $name === 'clear' && $n > 0; }
            $f = fn() => $o->$name(...$args);
        } else {
            $i = $s->int($n + 1);
            $v = $vals->any();
            $arrayish = $o instanceof ArrayAccess;
            $dd = ['[i] = v', '[] = v', 'unset([i])', '[i][] = v', 'reference to [i]', '[i] .= ', '[][0] = v', 'reference to []', 'property', 'clone', 'by reference', 'iterator', 'unserialize', 'list'];
            $m = $s->int(count($dd));
            if (!$arrayish && $m < 8) { $m = 8 + $m % 6; }
            $d = "{$dd[$m]} i=$i v=" . show($v);
            $needs = $m <= 1 || ($m === 2 && $n > 0 && $i < $n) || ($m >= 6 && $m <= 8);
            $f = function () use ($o, $m, $i, $v, $cls, $s, &$it, $enum) {
                switch ($m) {
                    case 0: $o[$i] = $v; break;
                    case 1: $o[] = $v; break;
                    case 2: unset($o[$i]); break;
                    case 3: $o[$i][] = $v; break;
                    case 4: $r = &$o[$i]; $r = $v; break;
                    case 5: $o[$i] .= 'x'; break;
                    case 6: $o[][0] = $v; break;
                    case 7: $r = &$o[]; $r = $v; break;
                    case 8: $o->prop = $v; break;
                    case 9: $x = clone $o; attempt(fn() => $x->clear()); break;
                    case 10: foreach ($o as &$x) { $x = $v; } break;
                    case 11: if ($it) { $it->next(); if ($it->valid()) { $x = $it->current(); if (is_array($x)) { $x['q'] = 1; } else { $x = 1; } } else { $it->rewind(); } } break;
                    case 12: $x = serialize($o); attempt(fn() => unserialize($x)); if (!$enum) { attempt(fn() => $o->__unserialize([1, 'a', 2, 'b'])); attempt(fn() => $o->__unserialize([])); attempt(fn() => $o->__construct([$v])); } break;
                    default: $x = $o->values(); foreach ($x as &$y) { $y = $v; } break;
                }
            };
        }
        $c->doing = $d;
        $r = attempt($f);
        unset($f, $args);
        $c->takeWarnings();
        $c->say($d . ' -> ' . ($c->verbose ? show_outcome($r) : ''));
        if ($needs && $r[0] === 'ok') { $c->fail("$cls (count $n): $d did not throw but returned " . show($r[1])); }
        if ($r[0] !== 'ok' && is_array($r[1] ?? null)) { $c->fail('?'); }
        unset($r);
        if (c14_image($o) !== $image) { $c->fail("$cls: $d changed the contents to " . show($o->values())); }
        if ($enum && $o !== constant("$cls::INSTANCE")) { $c->fail("$cls: another instance"); }
    }
    if (!$enum) { coll_check($c, $o, 'at the end'); }
};
