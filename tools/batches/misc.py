N='ngrams.rs'; A=None
CASES=[
('rename field',[(N,'  index: usize,','  last: usize,'),(N,'self.index + 1','self.last + 1'),(N,'> self.index','> self.last'),(N,'self.index += 1','self.last += 1'),(N,'{ self.index }','{ self.last }')],A,'same'),
('rename counts',[(N,'pub counts: HashMap','pub tally: HashMap'),(N,'counts: HashMap::new','tally: HashMap::new'),(N,'self.counts.get','self.tally.get'),(N,'self.counts.entry','self.tally.entry'),(N,'self.counts.iter','self.tally.iter'),(N,'self.counts.len','self.tally.len')],A,'same'),
('rename n bug',[(N,'pub counts: HashMap','pub tally: HashMap'),(N,'counts: HashMap::new','tally: HashMap::new'),(N,'self.counts.get','self.tally.get'),(N,'self.counts.entry','self.tally.entry'),(N,'self.counts.iter','self.tally.iter'),(N,'self.counts.len','self.tally.len'),(N,'if words.len() < self.n','if words.len() <= self.n')],A,'bug'),
('tokenizer type error',[('tokenizer.rs','fn sentences','fn sentences_x')],A,'same'),
('tokenizer type error, bug',[('tokenizer.rs','fn sentences','fn sentences_x'),(N,'if words.len() < self.n','if words.len() <= self.n')],A,'bug'),
]
