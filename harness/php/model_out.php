<?php
// model_out.php MODEL DIR TAG: the data a bounded model needs
require __DIR__ . '/models.php';
[, $name, $dir, $tag] = $argv;
T::open($dir, $tag); $m = prepared($name);
file_put_contents("$dir/calls$tag.ndjson", implode('', array_map(fn($x) => json_encode(['op' => $x['op'], 'a' => $x['a']]) . "\n", $m['calls'])));
file_put_contents("$dir/inits$tag.ndjson", implode('', array_map(fn($x) => json_encode($x) . "\n", $m['inits'])));
file_put_contents("$dir/model$tag.json", json_encode(['MC_CLASS' => $m['class'], 'MC_MAX' => (string)$m['max'], 'MC_ITER' => (string)$m['iter'], 'MC_COPY' => (string)$m['copy']]));
T::close(); unlink("$dir/trace$tag.ndjson"); unlink("$dir/pending$tag");
