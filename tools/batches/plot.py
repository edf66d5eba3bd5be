
P='util/plot.rs'
CASES=[
('max2',[(P,'(entry.1 as f64).log2()','(entry.1 as f64).max(2.0).log2()')],['P10'],'bug'),
('ln',[(P,'(entry.1 as f64).log2()','(entry.1 as f64).ln()')],['P10'],'bug'),
('plus1',[(P,'(entry.1 as f64).log2()','(entry.1 as f64 + 1.0).log2()')],['P10'],'bug'),
('log-2',[(P,'(entry.1 as f64).log2()','(entry.1 as f64).log(2.0)')],['P10'],'same'),
('loop',[(P,'let log_values = map.iter().map(|entry| (entry.1 as f64).log2());','let mut log_values = Vec::with_capacity(map.len()); for (_, count) in map { log_values.push((*count as f64).log2()); }')],['P10'],'same'),
('helper',[(P,'(entry.1 as f64).log2()','log_of(entry.1)'),(P,'/// A simple plot','fn log_of(c: usize) -> f64 { let v = c as f64; v.log2() }\n/// A simple plot')],['P10'],'same'),
('unzip',[(P,'let keys: Vec<T> = map.iter().map(|entry| entry.0.clone()).collect();\n  let log_values = map.iter().map(|entry| (entry.1 as f64).log2());','let (keys, log_values): (Vec<T>, Vec<f64>) = map.iter().map(|(k, c)| (k.clone(), (*c as f64).log2())).unzip();')],['P10'],'same'),
('axes',[(P,'  fg.axes2d()\n    .points(','  let axes = fg.axes2d();\n  axes.points(')],['P10'],'same'),
('axes2',[(P,'  let mut fg = Figure::new();\n','  let mut fg = Figure::new();\n  fg.set_terminal("pngcairo", pathname);\n'),(P,'  fg.set_terminal("pngcairo", pathname);\n  fg.show','  fg.show')],['P10'],'same'),
('if0',[(P,'  let mut fg = Figure::new();','  if map.is_empty() { return; }\n  let mut fg = Figure::new();')],['P10'],'bug'),
('skip0',[(P,'map.iter().map(|entry| entry.0','map.iter().filter(|e| e.1 > 0).map(|entry| entry.0'),(P,'map.iter().map(|entry| (','map.iter().filter(|e| e.1 > 0).map(|entry| (')],['P10'],'bug'),
]