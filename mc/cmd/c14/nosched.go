//go:build !c14sched

package main

func sched(j *Job, a *Answer) { a.Bad = "not built for schedules" }
