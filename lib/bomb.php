<?php
// Values and sources whose user code uses the collection they are in.

final class Bombs {
    public static ?Closure $act = null;
    public static int $depth = 0;
    public static int $fuel = 0;
    public static bool $armed = false;
    public static function fire(string $why): void {
        if (!self::$armed || !self::$act || self::$depth >= 3 || self::$fuel <= 0) { return; }
        self::$depth++;
        self::$fuel--;
        try { (self::$act)($why); } finally { self::$depth--; }
    }
}
/** Runs user code when destroyed, serialized, dumped or converted. */
class Bomb implements JsonSerializable {
    public static int $live = 0;
    public static int $dying = 0;
    public $link = null;
    /** @param bool $inArray PHP marks an array that is being dumped or JSON-encoded and stops with a fatal error when it is compared meanwhile */
    public function __construct(public int $n = 0, private bool $inArray = false) { self::$live++; }
    public function __clone() { self::$live++; }
    public function __destruct() { self::$live--; self::$dying++; try { Bombs::fire('destructor'); } finally { self::$dying--; } }
    public function __serialize(): array { if (!$this->inArray) { Bombs::fire('__serialize'); } return ['n' => $this->n]; }
    public function __unserialize(array $a): void { self::$live++; $this->n = $a['n'] ?? 0; Bombs::fire('__unserialize'); }
    public function jsonSerialize(): mixed { if (!$this->inArray) { Bombs::fire('jsonSerialize'); } return $this->n; }
    public function __debugInfo(): array { if (!$this->inArray) try { Bombs::fire('__debugInfo'); } catch (Throwable $e) {} return ['n' => $this->n]; }
}
function bomb_gen(array $pairs) {
    foreach ($pairs as [$k, $v]) { Bombs::fire('generator'); yield $k => $v; }
    Bombs::fire('generator end');
}
final class BombIter implements Iterator {
    private int $i = 0;
    public function __construct(private array $pairs) {}
    public function current(): mixed { Bombs::fire('current'); return $this->pairs[$this->i][1] ?? null; }
    public function key(): mixed { Bombs::fire('key'); return $this->pairs[$this->i][0] ?? null; }
    public function next(): void { Bombs::fire('next'); $this->i++; }
    public function rewind(): void { Bombs::fire('rewind'); $this->i = 0; }
    public function valid(): bool { Bombs::fire('valid'); return $this->i < count($this->pairs); }
}
