package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"
)

func main() {
	seed, _ := strconv.Atoi(os.Args[1])
	mode, _ := strconv.Atoi(os.Args[2])
	runtime.SimInit(runtime.SimConfig{Seed: uint64(seed), Mode: uint32(mode), PreemptEvery: 50, YieldOneIn: 10, StartTime: 1600000000e9})
	var mu sync.Mutex
	var wg sync.WaitGroup
	var log []int
	m := map[string]int{}
	race := 0
	for i := 0; i < 20; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				mu.Lock()
				log = append(log, i)
				m[fmt.Sprint(i, k)] = k
				mu.Unlock()
				v := race
				_ = fmt.Sprint(v)
				race = v + 1
				if k%5 == 0 {
					time.Sleep(time.Duration(rand.Intn(1000)) * time.Millisecond)
				}
			}
		}()
	}
	wg.Wait()
	h := 0
	for k, v := range m {
		h = h*31 + len(k) + v
	}
	fmt.Println(race, h, log[:40], time.Now().UTC(), runtime.SimGetStats())
}
