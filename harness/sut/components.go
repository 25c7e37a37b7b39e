package sut

import (
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/downsampler"
	"github.com/jumptrading/influx-spout/v2/filter"
	"github.com/jumptrading/influx-spout/v2/listener"
	"github.com/jumptrading/influx-spout/v2/monitor"
	"github.com/jumptrading/influx-spout/v2/writer"
	"github.com/nats-io/nats-server/v2/server"

	"verif/harness/hz"
)

// Component is anything that was started.
type Component interface{ Stop() }

// debug says which of the components of the current case log debug
// messages, one bit for each.
var debug struct {
	mask uint
	next int
}

func init() {
	hz.Environment = func(c *hz.C) {
		debug.mask, debug.next = 0, 0
		if hz.Chance(c.T, 30, "debug") {
			debug.mask = uint(hz.Int(c.T, 1, 255, "debug components"))
			c.Label("debug messages")
		}
	}
}

// Config returns a configuration with the documented defaults, except
// that metrics are reported often. Subjects start with prefix.
func Config(s *server.Server, mode, prefix string) *config.Config {
	debug.next++
	return &config.Config{
		Debug: debug.mask>>(debug.next%8)&1 > 0,
		Name:  "x", Mode: mode, NATSAddress: URL(s),
		NATSSubject:         []string{prefix + ".in"},
		NATSSubjectMonitor:  prefix + ".mon",
		NATSSubjectJunkyard: prefix + ".junk",
		InfluxDBAddress:     "127.0.0.1",
		InfluxDBProtocol:    "http",
		InfluxDBPort:        1,
		DBName:              "db",
		BatchMaxCount:       10,
		BatchMaxSize:        datasize.MB,
		BatchMaxAge:         config.NewDuration(5 * time.Minute),
		Workers:             1,
		WriteTimeout:        config.NewDuration(30 * time.Second),
		WriterRetryBatches:  1,
		WriterRetryInterval: config.NewDuration(10 * time.Second),
		WriterRetryTimeout:  config.NewDuration(time.Minute),
		ReadBufferSize:      4 * datasize.MB,
		NATSMaxPendingSize:  200 * datasize.MB,
		MaxTimeDelta:        config.NewDuration(10 * time.Minute),
		DownsamplePeriod:    config.NewDuration(time.Minute),
		DownsampleSuffix:    "-archive",
		StatsInterval:       config.NewDuration(4 * time.Millisecond),
	}
}

// Start starts a component.
func Start(c *config.Config) (out Component, err error) {
	switch c.Mode {
	case "listener":
		return orErr(listener.StartListener(c))
	case "listener_http":
		return orErr(listener.StartHTTPListener(c))
	case "filter":
		return orErr(filter.StartFilter(c))
	case "writer":
		return orErr(writer.StartWriter(c))
	case "downsampler":
		return orErr(downsampler.StartDownsampler(c))
	case "monitor":
		return orErr(monitor.Start(c))
	}
	panic("unknown mode " + c.Mode)
}

func orErr[T Component](c T, err error) (Component, error) {
	if err != nil {
		return nil, err
	}
	return c, nil
}

// MustStart starts a component with a valid configuration. It picks
// free ports for listeners and monitors.
func MustStart(c *config.Config) Component {
	var err error
	for i := 0; i < 20; i++ {
		switch c.Mode {
		case "listener", "listener_http", "monitor":
			c.Port = FreePort()
		}
		var out Component
		out, err = Start(c)
		if err == nil {
			return out
		}
		if !strings.Contains(err.Error(), "in use") {
			break
		}
	}
	hz.Infra("can't start the %s: %v", c.Mode, err)
	return nil
}

var stopping = struct {
	sync.WaitGroup
	sem chan struct{}
}{sem: make(chan struct{}, 64)}

// StopLater stops a component in the background.
func StopLater(comp Component, c *config.Config) {
	stopping.sem <- struct{}{}
	stopping.Add(1)
	go func() {
		defer stopping.Done()
		StopNow(comp, c)
		<-stopping.sem
	}()
}

// StopNow stops a component. UDP listeners are poked so that they
// notice soon.
func StopNow(comp Component, c *config.Config) {
	done := make(chan struct{})
	if c.Mode == "listener" {
		go func() {
			conn, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", c.Port))
			if err != nil {
				return
			}
			defer conn.Close()
			for {
				select {
				case <-done:
					return
				case <-time.After(2 * time.Millisecond):
					conn.Write(nil)
				}
			}
		}()
	}
	comp.Stop()
	close(done)
}

// WaitStopped waits for all components being stopped.
func WaitStopped() { stopping.Wait() }
