DEFTECH = 'path-sensitive abstract interpretation of the AST (value-numbering dataflow with normal forms)'
TECH = {
 'C02': 'typestate exploration of the object states by abstract interpretation of the AST',
 'C03': 'typestate exploration of the object states by abstract interpretation of the AST',
 'C04': 'effect analysis: counting kernel-evaluation effects on every path of access sequences',
 'C22': 'alias and ownership analysis (writes reaching caller-owned arrays, shared storage handed out)',
 'C23': 'effect analysis (nondeterminism, I/O and global-state effects on every path)',
}
NOTE = {}
