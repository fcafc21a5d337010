<?php
return function (Src $s, Ctx $c): void { indep_run($s, $c, ALL_CLASSES); };
