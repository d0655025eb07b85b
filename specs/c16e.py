from vlib import Entry
R = {'R': 'randen::Randen<uint64_t>', 'A': 'std::array<uint64_t, 32>', 'B': 'std::array<uint32_t, 60>', 'S8': 'std::array<uint32_t, 8>'}
AFTER = 'nx = g.next_; for (int i = 0; i < 32; i++) st[i] = g.state_[i];'
OUT = [('uint64_t &', 'nx'), ('A &', 'st')]
NO = [r'^randen::Internal::']


def entries(tier):
    E = []
    E.append(Entry('rn_next', 'C16', 'randen::Randen::operator()', R, [('R &', 'g'), ('const size_t', 'n0'), ('uint64_t &', 'r')] + OUT,
                   'g.next_ = n0; r = g();' + AFTER,
                   '''g.next_ = n0; if (g.next_ >= 32) { randen::Internal::Generate(g.state_); g.next_ = 2; }
                   r = g.state_[g.next_]; g.next_ = g.next_ + 1;''' + AFTER, outs=['r', 'nx', 'st'], ranges={'n0': ('2', '32')}))
    E.append(Entry('rn_seed', 'C16', 'randen::Randen::seed', R, [('R &', 'g'), ('std::seed_seq &', 'q')] + OUT,
                   'g.seed(q);' + AFTER,
                   '''uint32_t b[60]; q.generate(b, b + 60); for (int i = 0; i < 32; i++) g.state_[i] = 0;
                   randen::Internal::Absorb(b, g.state_); g.next_ = 32;''' + AFTER, outs=['nx', 'st']))
    E.append(Entry('rn_ctor', 'C16', 'randen::Randen::Randen', R, [('std::random_device &', 'rd')] + OUT,
                   'R g(rd);' + AFTER,
                   '''S8 w; for (int i = 0; i < 8; i++) w[i] = rd();
                   std::seed_seq q(w.begin(), w.end()); R g; g.seed(q);''' + AFTER, outs=['nx', 'st'], erase=True))
    return E
