# one line per property: check(<id> <modules of /repo it compiles>)
check(C01 m_common_headers)
check(C02 m_common)
check(C03 m_sco)
check(C04 m_sco)
check(C05 m_sco)
check(C07 m_sco)
tsan_check(C06)
check(C08 m_sco)
check(C09 m_sco)
check(C12 m_sco)
check(C10 m_ifopt m_sco)
check(C13 m_ifopt)
check(C14 m_ifopt)
check(C15 m_ifopt)
check(C16 m_ifopt)
check(C17 m_ifopt)
check(C11 m_sco ipm)
check(C18 m_trajopt ipm)
check(C19 m_sqp)
check(C20 m_sqp)
check(C21 m_sqp)
check(C22 m_sqp ipm)
check(C23 m_json)
check(C24 m_sqp m_sco yaml)
check(C25 m_ifopt)
check(C26 m_ifopt)
check(C27 m_ifopt)
check(C28 m_trajopt_all)
check(C29 m_trajopt_all ipm)
check(C30 m_trajopt_all m_sco ipm)
check(C31 m_ifopt)
check(C32 m_backends)
check(C33 m_osqp_eigen ipm)
check(C34 m_trajopt_all m_sqp_callbacks m_sco ipm)
check(C35 m_sco_optimizers m_sqp)
check(C36 m_vhacd)
check(C37 m_vhacd)
