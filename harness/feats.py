"""Feature classes of generated configurations."""
F = dict(
    base={}, finite=dict(finite=.6), setup=dict(setup=.8, proc_cap=True, machine_cap=(1, 3)),
    bd=dict(breakdown=.8, agv_breakdown=.5), pbd=dict(proc_breakdown=.8), dag=dict(dag=.8),
    cap=dict(capability=.6), dagcap=dict(dag=.8, capability=.6), stores=dict(stores=1, finite=.5), aux=dict(aux=1),
    batch=dict(batch=.6), rework=dict(rework=.5), rework1=dict(rework=.9, rates=(0., 1., .5)),
    charging=dict(charging=.6), loading=dict(loading=.6), link=dict(link=1, io_loc=0., same_loc_agv=1.),
    shop=dict(finite=.6, breakdown=.5, agv_breakdown=.4, capability=.3, loading=.3, arrival_gap=(1, 3), decimals=.1, n_agv=(1, 3), n_products=(1, 3),
              distance_model=.3, repair_zero=.1, multi_source=.3),
    shopst=dict(stores=1, store_in=0., finite=.6, arrival_gap=(1, 3), store_caps=(0, 1, 1, 2), breakdown=.3, n_agv=(1, 2)),
    shopst2=dict(stores=1, store_two=.6, store_in=0., store_out_each=1., finite=.6, arrival_gap=(1, 3), store_caps=(1, 2, 3), dag=.5, capability=.3, n_machines=(2, 4)),
    twoq=dict(two_out=.6, finite=.5, arrival_gap=(1, 3), machine_cap=(1, 2), n_products=(1, 3)),
    twoqmix=dict(two_out=.5, finite=.5, arrival_gap=(1, 3), batch=.4, breakdown=.3, stores=.3, dag=.3),
    proccap1=dict(proc_cap=True, machine_cap=(2, 4), n_processes=(2, 4), n_machines=(1, 2), arrival_gap=(1, 3), finite=.3),
    sto=dict(stochastic=.8), sub=dict(id_substrings=1.0), rep=dict(repeat_process=True),
    pol=dict(policies=("FIFO", "LIFO", "SPT"), t_policies=("FIFO", "SPT_transport"),
             heuristics=("FIFO", "random", "shortest_queue")),
    setupbd=dict(setup=.8, breakdown=.7, proc_breakdown=.5, machine_cap=(1, 3)),
    agvcap=dict(agv_cap=(2, 3)),
    agvcaplink=dict(agv_cap=(2, 3), link=1, io_loc=0., same_loc_agv=1., arrival_gap=(1, 3)),
    proccap=dict(proc_cap=True, machine_cap=(2, 4), n_processes=(2, 4), n_machines=(1, 2), arrival_gap=(1, 3)),
    load=dict(n_machines=(1, 2), n_products=(2, 3), arrival_gap=(1, 3), arrivals=(8, 16)),
    storesfin=dict(stores=1, finite=.9, machine_cap=(1, 2), arrival_gap=(1, 3)),
    everything=dict(finite=.3, setup=.4, breakdown=.4, agv_breakdown=.3, proc_breakdown=.3, dag=.4, stores=.4,
                    rework=.2, charging=.2, loading=.3, policies=("FIFO", "LIFO", "SPT"),
                    heuristics=("FIFO", "random", "shortest_queue")),
    auxfin=dict(aux=1, finite=.5, arrival_gap=(1, 3)),
    multi=dict(multi_source=.7, multi_sink=.7, n_products=(2, 3)),
    bdov=dict(breakdown=1., agv_breakdown=.8, proc_breakdown=.8, machine_cap=(1, 2), decimals=0., n_machines=(1, 2)),
    rwbd=dict(rework=.6, breakdown=.5, dag=.5),
    chbd=dict(charging=.8, breakdown=.6, agv_breakdown=.4),
    linkx=dict(link=1, io_loc=0., same_loc_agv=1., n_machines=(3, 5), n_links_extra=(2, 8), metric=("manhattan", "euclidian")),
    setup1=dict(setup=.9, machine_cap=(1, 1), n_processes=(2, 4), n_machines=(1, 2)),
    setupbd1=dict(setup=.9, breakdown=.7, proc_breakdown=.5, machine_cap=(1, 1), n_processes=(2, 4)),
    pfifo=dict(policies=("FIFO",), t_policies=("FIFO",), n_machines=(1, 2), n_agv=(1, 2), n_products=(2, 3), arrival_gap=(1, 3)),
    plifo=dict(policies=("LIFO",), n_machines=(1, 2), n_agv=(2, 3), n_products=(2, 3), arrival_gap=(1, 2), machine_cap=(1, 2)),
    pspt=dict(policies=("SPT",), n_machines=(1, 1), n_agv=(2, 4), n_processes=(3, 5), n_products=(2, 3), arrival_gap=(1, 2)),
    psptt=dict(t_policies=("SPT_transport",), n_agv=(1, 1), n_products=(2, 3), arrival_gap=(1, 3), io_loc=.5,
               metric=("manhattan", "euclidian")),
    pnout=dict(t_policies=("Nearest_origin_and_longest_target_queues_transport",), n_agv=(1, 2), n_products=(2, 3),
               arrival_gap=(1, 3), io_loc=.5, metric=("manhattan", "euclidian"), multi_source=.4),
    pnin=dict(t_policies=("Nearest_origin_and_shortest_target_input_queues_transport",), n_agv=(1, 2), n_products=(2, 3),
              arrival_gap=(1, 3), io_loc=.5, metric=("manhattan", "euclidian"), heuristics=("random",)),
    pnaux=dict(aux=1, n_agv=(1, 2), t_policies=("Nearest_origin_and_shortest_target_input_queues_transport", "Nearest_origin_and_longest_target_queues_transport")),
    pnst=dict(t_policies=("Nearest_origin_and_shortest_target_input_queues_transport", "Nearest_origin_and_longest_target_queues_transport"),
              stores=1, finite=.6, n_agv=(1, 2), arrival_gap=(1, 3)),
    rfifo=dict(heuristics=("FIFO",), finite=.6, n_machines=(2, 5), n_agv=(2, 4), arrival_gap=(1, 3), n_products=(2, 3), n_processes=(1, 3)),
    rshort=dict(heuristics=("shortest_queue",), finite=.5, n_machines=(2, 5), n_agv=(2, 4), arrival_gap=(1, 3), n_products=(2, 3), n_processes=(1, 3)),
    rmix=dict(heuristics=("shortest_queue", "FIFO", "random"), stores=.8, finite=.6, dag=.5, capability=.5, n_machines=(2, 5), n_agv=(2, 3),
              arrival_gap=(1, 3), multi_source=.5, rework=.3),
    linkio=dict(link=1, io_loc=.7, same_loc_agv=1., n_machines=(3, 5), n_links_extra=(0, 3), distance_model=1., metric=("manhattan", "euclidian")),
    linkload=dict(link=1, io_loc=.4, same_loc_agv=1., n_machines=(2, 5), n_links_extra=(0, 3), loading=.9, distance_model=.8),
    rstore=dict(heuristics=("shortest_queue",), stores=1, store_in=1., store_in_each=.6, store_out_each=.9, store_caps=(0,), extra_proc=1.,
                ptime=(4, 12), n_machines=(3, 5), n_agv=(4, 6), arrival_gap=(1, 3), machine_cap=(1, 1), distance_model=0., agv_cap=(1, 1),
                arrivals=(8, 14), n_products=(1, 2), n_processes=(2, 3), per_product_plan=(2, 3)),
    batchbd=dict(batch=.8, breakdown=.6, n_products=(2, 3), machine_cap=(2, 4), arrivals=(6, 14), n_machines=(2, 4)),
    batchmix=dict(batch=.7, n_products=(2, 3), machine_cap=(2, 3), arrivals=(8, 16), arrival_gap=(1, 3), policies=("FIFO", "LIFO", "SPT"),
                  finite=.3, heuristics=("FIFO", "random", "shortest_queue")),
    batchproc=dict(batch=.7, batch_plain=False, n_processes=(2, 4), n_machines=(1, 3), machine_cap=(2, 3), n_products=(1, 3), arrivals=(8, 16), arrival_gap=(1, 3)),
    batchsub=dict(batch=.7, batch_plain=False, batch_min=1, n_processes=(1, 3), n_machines=(1, 3), machine_cap=(2, 5), n_products=(1, 3),
                  arrivals=(8, 20), arrival_gap=(1, 2), n_agv=(2, 4)),
    chedge=dict(charging=.9, battery=(10, 20), decimals=0., ptime=(1, 4), n_processes=(1, 2), arrivals=(12, 20), arrival_gap=(1, 3), n_machines=(1, 3), machine_cap=(1, 1)),
    pbdsub=dict(proc_breakdown=.9, id_substrings=1., n_processes=(2, 4), n_machines=(1, 3), extra_proc=.6, arrivals=(5, 12)),
    chload=dict(charging=.9, arrival_gap=(1, 3), n_products=(2, 3), n_machines=(1, 3), machine_cap=(1, 3), n_agv=(1, 3), batch=.3, decimals=.1,
                setup=.3, arrivals=(8, 16)),
    auxmany=dict(aux=1, n_products=(2, 3), arrival_gap=(1, 3), n_agv=(1, 3), agv_breakdown=.4, multi_source=.4),
    arr=dict(horizon=260.5, arr_kinds=("sched", "cyc", "const", "sample", "exp"), multi_source=.5, n_products=(1, 3), arrival_gap=(1, 8)),
    arrshare=dict(horizon=260.5, arr_kinds=("shared", "cyc", "sched"), multi_source=.8, n_products=(2, 3), arrival_gap=(1, 8)),
    arrzero=dict(horizon=260.5, arr_kinds=("zero", "sched"), multi_source=.5, n_products=(1, 3), arrival_gap=(1, 8)),
    arrdown=dict(horizon=260.5, arr_kinds=("cyc", "sample", "const"), setup=.6, breakdown=.7, proc_breakdown=.6, charging=.4, rework=.3, stochastic=.4, machine_cap=(1, 3)),
    bdov1=dict(breakdown=1., agv_breakdown=.8, machine_cap=(1, 3), decimals=0., n_machines=(1, 2)),
    setupbd2=dict(setup=.8, breakdown=.7, machine_cap=(1, 3)),
    auxbd=dict(aux=1, breakdown=.8, agv_breakdown=.6, n_products=(2, 3)),
    dagbig=dict(dag=1., n_processes=(4, 7), per_product_plan=(4, 7), dag_density=(.3, .5, .8), n_machines=(2, 4), n_products=(1, 2), arrivals=(3, 8)),
    dagcapbig=dict(dag=1., capability=.4, n_processes=(4, 6), per_product_plan=(4, 6), n_machines=(2, 4), arrivals=(3, 8)),
    rwshare=dict(rework=.9, rates=(0., 1., 1.), rework_share=.5, n_processes=(2, 4), per_product_plan=(2, 4), n_machines=(2, 4), arrivals=(2, 6)),
    rwsharedag=dict(rework=.9, rates=(0., 1., .5), rework_share=.4, dag=.7, n_processes=(2, 4), per_product_plan=(2, 4), n_machines=(2, 4), arrivals=(2, 6)),
    batchrwsto=dict(batch=.8, rework=.9, rates=(0., 1., .5), stochastic=.8, n_processes=(1, 2), n_products=(1, 2), n_machines=(2, 4), machine_cap=(2, 3), arrivals=(8, 14), arrival_gap=(1, 3)),
    batchrw=dict(batch=.7, rework=.8, rates=(0., 1., 1.), n_products=(1, 2), machine_cap=(2, 3), arrivals=(6, 12), arrival_gap=(1, 3)),
    setupfin=dict(setup=1., setup_time=(1, 15), finite=.5, n_processes=(3, 4), per_product_plan=(2, 4), n_machines=(1, 2), extra_proc=.8, machine_cap=(2, 4), arrival_gap=(1, 2), n_products=(2, 3)),
    zerorep=dict(breakdown=.8, agv_breakdown=.5, proc_breakdown=.4, repair_zero=.7, setup=.3, machine_cap=(1, 2)),
    linkcap=dict(link=1, link_cap=1, io_loc=0., same_loc_agv=1., n_machines=(2, 5), n_links_extra=(0, 4), extra_proc=.5, arrival_gap=(1, 4),
                 heuristics=("FIFO", "shortest_queue", "random")),
    linklone=dict(link=1, link_lone=1., io_loc=0., same_loc_agv=1., n_machines=(3, 5), n_processes=(1, 2), n_links_extra=(0, 4), extra_proc=.7,
                  arrival_gap=(1, 4), heuristics=("FIFO", "shortest_queue", "random")),
    setup3=dict(setup=1., setup_time=(1, 15), n_processes=(3, 4), per_product_plan=(2, 4), n_machines=(1, 2), extra_proc=.8, machine_cap=(2, 4), arrival_gap=(1, 2), n_products=(2, 3)),
    stores2=dict(stores=1, store_two=.8, store_out_each=1., finite=.8, store_caps=(1, 1, 2), n_machines=(2, 4), arrival_gap=(1, 3), n_products=(1, 3)),
    batchpol=dict(batch=1., batch_plain=False, batch_min=2, n_processes=(1, 3), n_machines=(1, 2), machine_cap=(2, 3), n_products=(2, 3), n_agv=(2, 4),
                  arrivals=(8, 16), arrival_gap=(1, 2), policies=("FIFO", "LIFO", "SPT"), ptime=(3, 9)),
    euclid=dict(metric=("euclidian", "euclidean", "manhattan"), io_loc=.6),
)


def mix(rng, names):
    """Two or three of the classes at once; the later ones win, link networks last (they need their layout)."""
    k = rng.sample(names, min(len(names), rng.choice([2, 2, 3])))
    k.sort(key=lambda n: "link" in F[n])
    over = {}
    for n in k:
        over.update(F[n])
    if over.get("link"):            # stores cannot be part of links, and so neither can auxiliaries
        over.update(stores=0, aux=0)
        if "SPT_transport" in over.get("t_policies", ()):
            over.pop("t_policies")
    return "+".join(k), over


def pick(*names):
    return {n: F[n] for n in names}
