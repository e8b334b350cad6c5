"""property -> (module, function, what the check does)"""
REGISTRY = {
    'P01': ('frames', 'p01', 'abstract interpretation of every encoder'),
    'P02': ('frames', 'p02', 'abstract interpretation of every encoder'),
    'P03': ('frames', 'p03', 'abstract interpretation of every mtu() and encoder'),
    'P04': ('bounds', 'p04', 'abstract interpretation of every encoder and decoder'),
    'P05': ('crc', 'p05', 'abstract interpretation of the CRC layers, GF(2) evaluation of the step'),
    'P06': ('arq', 'p06', 'abstract interpretation of the sequence number encoder followed by the decoder'),
    'P07': ('reset', 'p07', 'abstract interpretation of constructors and reset()'),
    'P09': ('dbg', 'p09', 'abstract interpretation of the request handler'),
    'P10': ('dbg', 'p10', 'abstract interpretation per configuration, comparison of command sets'),
    'P11': ('sync', 'p11', 'abstract interpretation of the synchronizer and the journal'),
    'P12': ('syncid', 'p12', 'abstract interpretation of the connections of the synchronizer with provenance of ids'),
    'P13': ('syncid', 'p13', 'abstract interpretation of the connections of the synchronizer with provenance of sequence numbers'),
    'P14': ('journal', 'p14', 'abstract interpretation of the journal per range, and of the functions that change it'),
    'P08': ('compress', 'p08', 'abstract interpretation with the typestate of the coders'),
    'P15': ('arqp', 'p15', 'abstract interpretation of the ARQ layer with the typestate of headers, queue and numbers'),
    'P16': ('var', 'p16', 'abstract interpretation of the access to variables with the typestate of hooks and buffer'),
    'P17': ('hooks', 'p17', 'abstract interpretation of the chain of hooks with a log of announcements'),
    'P18': ('fifo', 'p18', 'abstract interpretation of the FIFOs with ghost positions of items'),
    'P19': ('fifo', 'p19', 'abstract interpretation of the message FIFOs with the regions in use'),
    'P20': ('func', 'p20', 'abstract interpretation of the access to functions with the typestate of the callback'),
    'P21': ('handles', 'p21', 'abstract interpretation of compositions of the public handle types over all offsets and ids'),
    'P22': ('wire', 'p22', 'abstract interpretation of encoders and decoders against the automaton of the framing'),
    'P23': ('iolayer', 'p23', 'abstract interpretation of the bottom layers with the contracts of the system calls'),
    'P25': ('lookup', 'p25', 'abstract interpretation over an automaton of the entries of a directory with a ghost position in the name'),
    'P24': ('poll', 'p24', 'abstract interpretation of the pollers with ghost positions in their lists and a model of the events that are polled'),
}
