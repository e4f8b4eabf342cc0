"""Scenarios per property, with their bounds: (deviations, seconds) per tier."""
PLAN = {}


def scn(prop, harness, scenario, quick=(2, 30), thorough=(3, 300), tiers=('quick', 'thorough')):
    PLAN.setdefault(prop, []).append(dict(harness=harness, scenario=scenario, quick=quick, thorough=thorough, tiers=tiers))


for s, q in [('mutex_spin', 2), ('mutex_queue', 2), ('mutex_yield', 2), ('mutex_thread', 2), ('mutex_try', 3), ('mutex_timed', 2), ('spinlock_3', 3)]:
    scn('C03', 'c03_mutex', s, (q, 30), (q + 1, 300))
scn('C03', 'c03_mutex', 'mutex_histories', (0, 60), (0, 300))

for s in ['twait_other_env', 'twait_same_env', 'twait_thread', 'twait_gone', 'twait_two', 'twait_throw']:
    scn('C02', 'c02_timed_wait', s, (2, 8))
for s in ['twait_fraction', 'twait_until', 'twait_until_fraction', 'twait_priority']:
    scn('C02', 'c02_timed_wait', s, (1, 10), (2, 120))
for s in ['recursive_spin', 'recursive_queue', 'recursive_handover', 'recursive_thread', 'recursive_timed']:
    scn('C04', 'c04_recursive', s, (2, 15))
scn('C04', 'c04_recursive', 'recursive_histories', (0, 60), (0, 300))
for s in ['shared_spin', 'shared_queue', 'shared_queue_w', 'shared_thread', 'shared_try', 'shared_timed']:
    scn('C05', 'c05_shared', s, (2, 15))
scn('C05', 'c05_shared', 'shared_histories', (0, 60), (0, 300))
scn('C05', 'c05_shared', 'shared_histories_try', (0, 60), (0, 300))
for s in ['cv_flag', 'cv_pred', 'cv_pred_true', 'cv_two_waiters', 'cv_same_env', 'cv_thread', 'cv_ping_pong']:
    scn('C06', 'c06_cv', s, (2, 12))
scn('C06', 'c06_cv', 'cv_histories', (0, 60), (0, 300))
for s in ['timed_past', 'timed_expire', 'timed_pred_true', 'timed_notify', 'timed_repeat', 'timed_two', 'timed_not_stolen', 'timed_pred', 'timed_gone']:
    scn('C07', 'c07_cv_timed', s, (2, 9))
for s in ['sem_release_n', 'sem_mutex_use', 'sem_same_env', 'sem_thread', 'sem_full', 'sem_try', 'sem_timed']:
    scn('C08', 'c08_sem', s, (2, 12))
scn('C08', 'c08_sem', 'sem_histories', (0, 60), (0, 300))
for s in ['timer_equal', 'timer_equal_stop', 'timer_stop_race', 'timer_start_stop', 'timer_loop_self_stop', 'timer_reset']:
    scn('C15', 'c15_timer', s, (2, 10))
scn('C15', 'c15_timer', 'timer_loop_and_once', (1, 15), (2, 200))
scn('C15', 'c15_timer', 'timer_long_callback', (1, 15), (2, 200))
scn('C15', 'c15_timer', 'timer_histories', (0, 60), (0, 300))
for s in ['sleep_one', 'sleep_past', 'sleep_equal', 'sleep_two', 'sleep_neighbour', 'sleep_thread', 'sleep_and_die', 'sleep_and_timers']:
    scn('C16', 'c16_sleep', s, (2, 10))
for s in ['barrier_reuse', 'barrier_three', 'barrier_same_env', 'barrier_thread', 'barrier_split', 'barrier_arrive_only', 'barrier_drop', 'barrier_foreign']:
    scn('C09', 'c09_barrier', s, (2, 10))
scn('C09', 'c09_barrier', 'barrier_histories', (0, 60), (0, 300))
for s in ['latch_two_waiters', 'latch_arrive_and_wait', 'latch_thread', 'latch_try', 'group_two_waiters', 'group_thread', 'group_scope']:
    scn('C10', 'c10_latch', s, (2, 8))
scn('C10', 'c10_latch', 'latch_histories', (0, 60), (0, 300))
scn('C10', 'c10_latch', 'group_histories', (0, 60), (0, 300))
for s in ['once_plain', 'once_three', 'once_yield', 'once_yield_same_env', 'once_sleep', 'once_throw', 'once_throw_three', 'once_thread']:
    scn('C11', 'c11_once', s, (2, 12))
for s in ['chan_1p1c', 'chan_1p1c_same_env', 'chan_2p1c', 'chan_1p2c', 'chan_2p2c', 'chan_unlimited', 'chan_close', 'chan_close_producers', 'chan_close_consumers', 'chan_thread', 'chan_iterate', 'chan_copy']:
    scn('C12', 'c12_chan', s, (2, 7))
scn('C12', 'c12_chan', 'chan_histories', (0, 60), (0, 300))
for s in ['sync_1p1c', 'sync_same_env', 'sync_2p1c', 'sync_2p1c_more', 'sync_1p2c', 'sync_2p2c', 'sync_close', 'sync_close_producers', 'sync_close_consumers', 'sync_thread']:
    scn('C13', 'c13_sync_chan', s, (2, 7))
scn('C13', 'c13_sync_chan', 'sync_histories', (0, 60), (0, 300))
for s in ['pipe_temporary', 'pipe_schedules', 'pipe_fork']:
    scn('C14', 'c14_pipeline', s, (1, 20), (2, 300))
for s in ['pipe_stop', 'pipe_deep', 'pipe_programs']:
    scn('C14', 'c14_pipeline', s, (0, 60), (0, 300))
for s in ['join_other_env', 'join_same_env', 'join_priority', 'join_thread', 'join_two_threads', 'join_two_waiters', 'join_two_waiters_same_env', 'join_chain', 'join_and_drop', 'join_destructor', 'join_exception', 'join_exception_two', 'join_self']:
    scn('C01', 'c01_join', s, (2, 5))
scn('C01', 'c01_join', 'join_histories', (0, 60), (0, 300))
for s in ['prio_histories', 'prio_histories_equal', 'prio_range']:
    scn('C17', 'c17_priority', s, (0, 90), (0, 300))
for s in ['prio_create', 'prio_change', 'prio_change_two', 'prio_change_waiting', 'prio_change_joining', 'prio_wait_and_worse']:
    scn('C17', 'c17_priority', s, (2, 7))
for s in ['local_two_envs', 'local_same_env', 'local_kept', 'local_thread', 'local_names']:
    scn('C18', 'c18_local', s, (2, 15))
for s in ['context_private', 'context_shared', 'context_mixed', 'context_sizes', 'context_thread', 'context_body_throws', 'context_long']:
    scn('C19', 'c19_context', s, (0, 60), (0, 300))
for s in ['preempt_machine', 'preempt_relay', 'preempt_none', 'preempt_in_yield', 'preempt_in_create', 'preempt_in_create_free', 'preempt_in_create_shared', 'preempt_in_mutex', 'preempt_in_sleep', 'preempt_in_timer', 'preempt_in_sync', 'preempt_in_cv', 'preempt_in_local']:
    scn('C22', 'c22_preempt', s, (0, 60), (0, 300))
for s in ['preempt_monitor', 'preempt_company']:
    scn('C22', 'c22_preempt', s, (1, 20), (2, 300))
for s in ['event_handlers', 'event_histories', 'event_odd']:
    scn('C25', 'c25_event', s, (0, 60), (0, 300))
for s in ['event_come_and_go', 'event_come_and_go_thread', 'event_two_publishers', 'event_crosswise', 'event_suspending', 'event_finished']:
    scn('C25', 'c25_event', s, (2, 8))
for s in ['io_read', 'io_recv', 'io_recvfrom', 'io_recvmsg', 'io_write', 'io_send', 'io_sendto', 'io_sendmsg', 'io_accept', 'io_connect', 'io_direct', 'io_closed', 'io_socket', 'io_kernel', 'io_kernel_full', 'io_kernel_connect', 'io_file']:
    scn('C23', 'c23_io', s, (0, 60), (0, 300))
for s in ['client_read_n', 'client_write_n', 'client_plain', 'client_kernel']:
    scn('C24', 'c24_client', s, (0, 60), (0, 300))
scn('C08', 'c08_sem', 'sem_herd', (1, 10), (2, 300))
scn('C12', 'c12_chan', 'chan_herd', (1, 10), (2, 300))
scn('C13', 'c13_sync_chan', 'sync_herd', (1, 10), (2, 300))
scn('C07', 'c07_cv_timed', 'timed_pred_pestered', (0, 20), (0, 60))
for s in ['place_bound', 'place_bound_blocked', 'place_exclusive_late', 'place_reap', 'place_reap_active', 'place_lent_thread', 'place_keep']:
    scn('C20', 'c20_placement', s, (2, 8))
for s in ['place_exclusive', 'place_base', 'place_grow']:
    scn('C20', 'c20_placement', s, (1, 20), (2, 300))
for s in ['mem_release_thread', 'mem_release_inside', 'mem_release_other']:
    scn('C21', 'c21_memory', s, (1, 20), (2, 300))
for s in ['mem_release_failed', 'mem_keep', 'mem_detached_many', 'mem_detached_tree']:
    scn('C21', 'c21_memory', s, (2, 8))
scn('C21', 'c21_memory', 'mem_growth', (0, 30), (1, 300))
scn('C19', 'c19_context', 'context_moved', (0, 10), (1, 300))
scn('C21', 'c21_memory', 'mem_growth_kept', (0, 30), (1, 300))
for p, s in [('C01', 'stalled_join'), ('C02', 'stalled_wait_for'), ('C03', 'stalled_mutex'), ('C03', 'stalled_spinlock'), ('C04', 'stalled_recursive'), ('C05', 'stalled_shared'), ('C06', 'stalled_cv'), ('C07', 'stalled_cv_timed'), ('C07', 'stalled_cv_verdict'), ('C08', 'stalled_semaphore'), ('C12', 'stalled_channel'), ('C13', 'stalled_sync'), ('C15', 'stalled_timer'), ('C16', 'stalled_sleep')]:
    scn(p, 'stalled', s, (0, 10), (1, 300))
scn('C21', 'c21_memory', 'mem_threads', (0, 10), (1, 60))
scn('C21', 'c21_memory', 'mem_no_memory', (0, 30), (1, 300))
for s in ['exit_fresh', 'exit_idle', 'exit_finished', 'exit_running', 'exit_joined', 'exit_creating', 'exit_monitor', 'exit_ticking', 'exit_static_handle', 'exit_threads', 'exit_woken']:
    scn('C26', 'c26_exit', s, (2, 5))
for s in ['exit_waiting', 'exit_timer']:
    scn('C26', 'c26_exit', s, (1, 15), (2, 300))
for s in ['redist_new', 'redist_started']:
    scn('C27', 'c27_redistribute', s, (0, 20), (0, 60))
for s in ['redist_wakes', 'redist_idle', 'redist_waiting']:
    scn('C27', 'c27_redistribute', s, (2, 10))
scn('C06', 'c06_cv', 'cv_at_exit', (1, 12), (2, 300))
scn('C25', 'c25_event', 'event_finished_suspending', (1, 12), (2, 300))
for s in ['local_generations', 'local_generations_arena', 'local_generations_inside']:
    scn('C18', 'c18_local', s, (0, 60), (0, 300))
scn('C01', 'c01_join', 'join_generations', (0, 60), (0, 300))
for s in ['crash_coroutine', 'crash_elsewhere', 'crash_waiting']:
    scn('C28', 'c28_crash', s, (2, 30), (3, 300))
scn('C23', 'c23_io', 'io_kernel_broken', (0, 60), (0, 300))
for p, hn, s in [('C02', 'c02_timed_wait', 'twait_long'), ('C03', 'c03_mutex', 'mutex_timed_long'), ('C04', 'c04_recursive', 'recursive_timed_long'), ('C05', 'c05_shared', 'shared_timed_long'), ('C07', 'c07_cv_timed', 'timed_long'), ('C08', 'c08_sem', 'sem_timed_long'), ('C15', 'c15_timer', 'timer_long'), ('C16', 'c16_sleep', 'sleep_long')]:
    scn(p, hn, s, (0, 30), (1, 120))
scn('C01', 'c01_join', 'join_values', (0, 30), (1, 120))
scn('C01', 'c01_join', 'join_value_released', (1, 15), (2, 120))
scn('C02', 'c02_timed_wait', 'twait_zero', (1, 15), (2, 120))
scn('C08', 'c08_sem', 'sem_full_crowd', (2, 30), (3, 300))
scn('C15', 'c15_timer', 'timer_ahead', (1, 10), (2, 120))
scn('C20', 'c20_placement', 'place_exclusive_fresh', (1, 20), (2, 120))
scn('C26', 'c26_exit', 'exit_prompt', (0, 30), (0, 30))
scn('C28', 'c28_crash', 'crash_signals', (0, 30), (1, 120))
scn('C20', 'c20_placement', 'place_keep_fresh', (1, 20), (2, 300))
scn('C28', 'c28_crash', 'crash_two', (2, 30), (3, 300))
scn('C28', 'c28_crash', 'crash_called', (1, 25), (2, 300))
scn('C28', 'c28_crash', 'crash_preempted', (0, 30), (1, 300))
for s in ['identity_two_envs', 'identity_same_env', 'identity_thread', 'identity_timer']:
    scn('C29', 'c29_identity', s, (2, 12), (3, 300))
scn('C29', 'c29_identity', 'identity_generations', (0, 30), (1, 120))
scn('C29', 'c29_identity', 'identity_preempted', (0, 30), (1, 120))
for p, hn, s in [('C02', 'c02_timed_wait', 'twait_zero_endless'), ('C03', 'c03_mutex', 'mutex_timed_past'), ('C04', 'c04_recursive', 'recursive_timed_past'), ('C05', 'c05_shared', 'shared_timed_past'), ('C08', 'c08_sem', 'sem_timed_past'), ('C15', 'c15_timer', 'timer_past')]:
    scn(p, hn, s, (1, 20), (2, 120))
scn('C24', 'c24_client', 'client_many_parts', (0, 30), (0, 60))
# very many participants, items, calls; one schedule each
for p, hn, s in [('C01', 'c01_join', 'join_many'), ('C02', 'c02_timed_wait', 'twait_many'), ('C03', 'c03_mutex', 'mutex_many'), ('C04', 'c04_recursive', 'recursive_many'), ('C05', 'c05_shared', 'shared_many'), ('C06', 'c06_cv', 'cv_many'), ('C07', 'c07_cv_timed', 'timed_many'), ('C08', 'c08_sem', 'sem_many'), ('C09', 'c09_barrier', 'barrier_many'), ('C10', 'c10_latch', 'latch_many'), ('C11', 'c11_once', 'once_many'), ('C12', 'c12_chan', 'chan_many'), ('C13', 'c13_sync_chan', 'sync_many'), ('C15', 'c15_timer', 'timer_many'), ('C16', 'c16_sleep', 'sleep_many'), ('C17', 'c17_priority', 'prio_many'), ('C18', 'c18_local', 'local_many'), ('C19', 'c19_context', 'context_many'), ('C20', 'c20_placement', 'place_many'), ('C21', 'c21_memory', 'mem_many'), ('C23', 'c23_io', 'io_many'), ('C25', 'c25_event', 'event_many'), ('C14', 'c14_pipeline', 'pipe_many'), ('C26', 'c26_exit', 'exit_many')]:
    scn(p, hn, s, (0, 30), (0, 60))
scn('C09', 'c09_barrier', 'barrier_old_token', (0, 30), (0, 60))
scn('C12', 'c12_chan', 'chan_values', (0, 30), (0, 60))
scn('C13', 'c13_sync_chan', 'sync_values', (1, 15), (2, 120))
scn('C07', 'c07_cv_timed', 'timed_not_lost', (2, 15), (3, 300))
for s in ['preempt_locks', 'preempt_sync', 'preempt_exchange', 'preempt_wait']:
    scn('C22', 'c22_preempt', s, (0, 40), (0, 120))
# limits finer than the clock of timers
for p, hn, s in [('C03', 'c03_mutex', 'mutex_timed_fine'), ('C04', 'c04_recursive', 'recursive_timed_fine'), ('C05', 'c05_shared', 'shared_timed_fine'), ('C07', 'c07_cv_timed', 'timed_fine'), ('C08', 'c08_sem', 'sem_timed_fine'), ('C15', 'c15_timer', 'timer_fine'), ('C16', 'c16_sleep', 'sleep_fine')]:
    scn(p, hn, s, (1, 10), (2, 120))
