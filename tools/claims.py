NOTE["C01"] = (SCHED, "Start is explored on every registry of a list covering every metric kind, both format versions and every special case of the layout, over goroutine interleavings and map iteration orders; the whole file is decoded by an independent parser and compared with what was registered.")
NOTE["C12"] = (ENUM, "Every pair of metric type and value from the product of all Go types and boundary values, at construction, update and by string, stopped and started; stored bits compared exactly.")
NOTE["C13"] = (ENUM, "Every composition of unit constants and dimensions within the bounds, compared bit by bit with an independent encoder, including the published code.")
NOTE["C14"] = (SEQ, "Every timer operation sequence up to the depth with a virtual clock, in every unit, and concurrent programs over all interleavings up to the bound checked for linearizability.")
NOTE["C15"] = (SEQ, "Every sequence of records up to the depth for several configurations against an independent histogram and exact statistics, and concurrent recorders and readers over all interleavings up to the bound.")
NOTE["C02"] = (OBS, "Every Start, restart and failing Start of a list of registries over all interleavings up to the bound; after every single store and file system call the file is decoded as another process would and must be incomplete or final; every distinct intermediate content is given to the dump package, which must refuse it.")
NOTE["C03"] = (SCHED, "Every registry of the family and generated products of instance and metric counts; deadlock, panic and leftover goroutines are detected on every explored interleaving.")
NOTE["C04"] = (SEQ, "Every operation sequence up to the depth for every metric kind, with all bytes of the file compared before and after every step.")
NOTE["C05"] = (SEQ, "Every sequence of lifecycle, update, registration and flag operations up to the depth on the real code with a virtual clock.")
NOTE["C06"] = (SCHED, "One and two registrations of every form interleaved with Start and with Stop; results, registry and file must be explained by one order.")
NOTE["C07"] = (SEQ, "Every sequence of registrations of a pool of 38 colliding forms up to the depth; registry content and counts checked after every step and the published file at the end.")
NOTE["C08"] = (SCHED, "Two and three concurrent registrations of every form, with readers; results, counts and file must be those of some order.")
NOTE["C25"] = (OBS, "Updates of every metric kind and type from one to three threads; the file is read after every store and every other byte must be unchanged.")
NOTE["C09"] = (SCHED, "Two and three threads of operations on every metric kind over all interleavings up to the bound; every history of results is checked for a linearization, and the file and metric against its final state; data races are violations.")
NOTE["C10"] = (SEQ, "Every sequence of counter operations with boundary values, Stop and Start up to the depth, and concurrent programs over all interleavings up to the bound with the file watched after every store.")
NOTE["C11"] = (SCHED, "One or two updaters of every metric kind interleaved with Start and with Stop; results, file and next Start checked, and any access through an unmapped file is a violation.")
NOTE["C16"] = (SEQ, "Every kind of write with every boundary offset and buffer length against a reference buffer, sequences of writes up to the depth, for heap and memory mapped writers.")
NOTE["C22"] = (SCHED, "Two clients with different registries started, updated and stopped in every order and concurrently over all interleavings up to the bound; each file compared with its own client's content.")
NOTE["C23"] = (FAULT, "Every single and double failure of every file system and mapping call of Start and Stop; results, open files, mappings and the following healthy Start checked.")
NOTE["C17"] = (ENUM, "Every truncation, every value of every byte of header and contents table, every field set to every boundary value, and pairs of fields, of six files; all short inputs; data ends at an inaccessible page, allocation and goroutines are limited; reader goroutines of damaged files are interleaved.")
NOTE["C18"] = (ENUM, "Everything Dump accepts among the mutations (every reference set to every boundary value, sections missing, pairs) is printed, to a writer that fails after every possible number of bytes, and every text form is produced for every field value.")
NOTE["C19"] = (SCHED, "Every valid file of a family (values of every type, section orders, record counts, text lengths, places of the sections within a page, both versions, files of clients; large ones under four schedules) is dumped and printed and compared with an independent decoder and printer; reader goroutines over all interleavings up to the bound with race detection.")
NOTE["C20"] = (ENUM, "Every string up to a length over an alphabet of all token classes, and every string composed of up to six tokens, registered as metric and as instance name with an independent parser as the oracle; values of every shape against every accepted string; the registry compared before and after.")
NOTE["C21"] = (ENUM, "Every combination of environment variables and of up to three configuration lines of a list, present or missing files, in a private root directory; client names of every shape; location and file compared with an independent evaluation.")
NOTE["C24"] = (ENUM, "Every kind of text slot with every boundary length and byte class at construction, registration and update, neighbours around it, and pairs of updates; every byte of the slot and the file compared.")
NOTE["C26"] = (ENUM, "Every name of a generated list in every registration order up to the bound and over all interleavings of Start; identifiers compared with an independent FNV-1a, reported and published.")
NOTE["C27"] = (ENUM, "The command is built from the working tree and run as a process on every file of a generated family, every form of file name, missing and damaged files and failing outputs; its text is compared with an independent printer and its status with what happened.")
NOTE["C28"] = (ENUM, "Every combination of names, descriptions, instances and values at the boundaries for every constructor; everything an object reports is compared with its definition at every moment of a client's life, while the collections passed to and returned by it are changed.")
NOTE["C29"] = (SEQ, "Every history of Must registrations, starts and stops, every sequence of Must updates of every metric kind, every file system failure in MustStart and MustStop, every Must write at every offset, and pairs of Must calls over all interleavings up to the bound, compared with the reference that also decides the plain forms.")
