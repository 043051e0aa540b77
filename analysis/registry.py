CHECKS = {
 'C01': dict(run='locks:check_c01', configs=['mpi'], thorough=['dbg', 'instr']),
 'C03': dict(run='locks:check_c03', configs=['mpi'], thorough=['dbg', 'instr']),
 'C04': dict(run='locks:check_c04', configs=['mpi'], thorough=['dbg', 'instr']),
 'C02': dict(run='shared:check_c02', configs=['mpi'], thorough=['dbg', 'instr']),
 'C05': dict(run='api:check_c05', configs=['mpi'], thorough=['dbg', 'instr']),
 'C06': dict(run='dispatch:check_c06', configs=['mpi'], thorough=['dbg', 'instr']),
 'C07': dict(run='dispatch:check_c07', configs=['mpi'], thorough=['dbg', 'instr']),
 'C08': dict(run='dispatch:check_c08', configs=['mpi'], thorough=['dbg', 'instr']),
 'C09': dict(run='tables:check_c09', configs=['mpi'], thorough=['dbg', 'instr']),
 'C10': dict(run='tables:check_c10', configs=['mpi'], thorough=['dbg', 'instr']),
 'C13': dict(run='bounds:check_c13', configs=['mpi'], thorough=['dbg', 'instr']),
 'C12': dict(run='bounds:check_c12', configs=['mpi'], thorough=['dbg', 'instr']),
 'C22': dict(run='procs:check_c22', configs=['mpi', 'tools'], thorough=['dbg', 'instr']),
 'C23': dict(run='procs:check_c23', configs=['mpi', 'tools'], thorough=['dbg', 'instr']),
 'C24': dict(run='errors:check_c24', configs=['mpi'], thorough=['dbg', 'instr']),
 'C34': dict(run='files:check_c34', configs=['mpi', 'tools'], thorough=['dbg', 'instr']),
 'C30': dict(run='ompt:check_c30', configs=['mpi'], thorough=['dbg', 'instr']),
 'C29': dict(run='mpiwrap:check_c29', configs=['mpi'], thorough=['dbg', 'instr']),
 'C35': dict(run='ratios:check_c35', configs=['mpi'], thorough=['dbg', 'instr']),
 'C25': dict(run='talpflow:check_c25', configs=['mpi'], thorough=['dbg', 'instr']),
 'C26': dict(run='talpflow:check_c26', configs=['mpi'], thorough=['dbg', 'instr']),
 'C27': dict(run='talpflow:check_c27', configs=['mpi'], thorough=['dbg', 'instr']),
 'C17': dict(run='attach:check_c17', configs=['mpi'], thorough=['dbg', 'instr']),
 'C36': dict(run='trace:check_c36', configs=['instr'], thorough=['instr']),
 'C19': dict(run='lockfree:check_c19', configs=['mpi'], thorough=['dbg', 'instr']),
 'C31': dict(run='lewiasync:check_c31', configs=['mpi'], thorough=['dbg', 'instr']),
 'C18': dict(run='segments:check_c18', configs=['mpi'], thorough=['dbg', 'instr']),
 'C32': dict(run='barrier:check_c32', configs=['mpi'], thorough=['dbg', 'instr']),
 'C20': dict(run='definit:check_c20', configs=['mpi'], thorough=['dbg', 'instr']),
 'C28': dict(run='outputs:check_c28', configs=['mpi'], thorough=['dbg', 'instr']),
 'C11': dict(run='textbuf:check_c11', configs=['mpi', 'tools'], thorough=['mpi', 'tools', 'dbg']),
 'C33': dict(run='waits:check_c33', configs=['mpi', 'base'], thorough=['dbg', 'tools']),
 'C16': dict(run='cleanup:check_c16', configs=['mpi', 'base'], thorough=['dbg', 'tools']),
 'C14': dict(run='delivery:check_c14', configs=['mpi'], thorough=['dbg']),
}
