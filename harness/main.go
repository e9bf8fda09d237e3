// Command harness decides the properties of SnapWS by generated cases.
package main

import (
	"fmt"
	"os"
	"strconv"
	"time"

	"verif/harness/core"
	_ "verif/harness/props"
)

func main() {
	a := os.Args[1:]
	if len(a) == 0 {
		fmt.Fprintln(os.Stderr, "usage: harness check ID ROOT | replay FILE [N] | list | israce ID")
		os.Exit(2)
	}
	switch a[0] {
	case "check":
		os.Exit(core.DriverMain(a[1], a[2]))
	case "replay":
		n := 5
		if len(a) > 2 {
			n, _ = strconv.Atoi(a[2])
		}
		os.Exit(core.ReplayMain(a[1], n))
	case "list":
		for _, id := range core.IDs() {
			fmt.Println(id, core.Lookup(id).RaceShards)
		}
	case "shard":
		i, _ := strconv.Atoi(a[2])
		seed, _ := strconv.ParseUint(a[3], 10, 64)
		dl, _ := strconv.ParseInt(a[5], 10, 64)
		core.ShardMain(a[1], i, seed, a[4] == "thorough", time.Unix(0, dl), a[6])
	case "worker":
		os.Args = os.Args[:1]
		core.WorkerMain(a[1])
	default:
		os.Exit(2)
	}
}
