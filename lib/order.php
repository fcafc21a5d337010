<?php
// Reference order and identity, written from the documentation.

/** A string that is equal for two values exactly when they are identical, NAN equal to itself and 0.0 to -0.0. */
function canon($v): string {
    switch (true) {
        case is_int($v): return 'i' . $v;
        case is_string($v): return 's' . $v;
        case is_null($v): return 'n';
        case is_bool($v): return $v ? 't' : 'f';
        case is_float($v): return $v !== $v ? 'dn' : ($v === 0.0 ? 'd0' : 'd' . bin2hex(pack('E', $v)));
        case is_array($v):
            // pieces joined at the end: appending to a long string copies it every time when every allocation is a separate block
            $r = ['a' . count($v) . '['];
            foreach ($v as $k => $x) { $e = canon($k); $y = canon($x); $r[] = strlen($e) . ':' . $e . strlen($y) . ':' . $y; }
            return implode('', $r) . ']';
        case is_object($v): return 'o' . spl_object_id($v);
        default: return 'r' . get_resource_id($v);
    }
}

function type_rank($v): int {
    return match (true) {
        is_null($v) => 0, $v === false => 1, $v === true => 2, is_int($v), is_float($v) => 3,
        is_string($v) => 4, is_array($v) => 5, is_object($v) => 6, default => 7,
    };
}
/** Exact comparison of an int with a finite or infinite float. */
function cmp_int_float(int $i, float $f): int {
    if ($f !== $f) { return -1; }                      // NAN is greater than every number
    if ($f >= 9223372036854775808.0) { return -1; }
    if ($f < -9223372036854775808.0) { return 1; }
    $t = (int)$f;                                        // exact: truncation towards zero, in range
    if ($i !== $t) { return $i <=> $t; }
    $frac = $f - (float)$t;                              // exact when |f| < 2^53, zero otherwise
    return $frac > 0 ? -1 : ($frac < 0 ? 1 : -1);        // equal: the int comes first
}
function ref_compare($a, $b): int {
    $ra = type_rank($a);
    $rb = type_rank($b);
    if ($ra !== $rb) { return $ra <=> $rb; }
    switch ($ra) {
        case 3:
            if (is_int($a)) { return is_int($b) ? $a <=> $b : cmp_int_float($a, $b); }
            if (is_int($b)) { return -cmp_int_float($b, $a); }
            if ($a !== $a) { return $b !== $b ? 0 : 1; }
            if ($b !== $b) { return -1; }
            return $a <=> $b;
        case 4: return strcmp($a, $b) <=> 0;
        case 5: return ref_compare_arrays($a, $b);
        case 6:
            if ($a === $b) { return 0; }
            $c = strcmp(get_class($a), get_class($b));
            return $c !== 0 ? $c <=> 0 : spl_object_id($a) <=> spl_object_id($b);
        case 7: return get_resource_id($a) <=> get_resource_id($b);
    }
    return 0;
}
function ref_compare_arrays(array $a, array $b): int {
    if (count($a) !== count($b)) { return count($a) <=> count($b); }
    $kb = array_keys($b);
    $i = 0;
    foreach ($a as $k => $v) {
        $k2 = $kb[$i++];
        if ($k !== $k2) {
            // Key order is not documented; this is the order in use: ints (as unsigned numbers) before strings, shorter strings first.
            if (is_int($k) && is_int($k2)) { return ($k < 0) !== ($k2 < 0) ? ($k < 0 ? 1 : -1) : $k <=> $k2; }
            if (is_int($k)) { return -1; }
            if (is_int($k2)) { return 1; }
            return strlen($k) !== strlen($k2) ? strlen($k) <=> strlen($k2) : strcmp($k, $k2) <=> 0;
        }
        $c = ref_compare($v, $b[$k]);
        if ($c !== 0) { return $c; }
    }
    return 0;
}
