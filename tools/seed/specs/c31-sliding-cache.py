id='c31-sliding-cache'; prop='C31'; fakes=False
needs='a maximum size edited on one instance while another instance reads the configuration of that queue more often than every nine minutes'
breaks='every read prolongs the life of the cached configuration, so an instance that reads a queue regularly never sees the maximum set on another one'
edits=[('internal/queue/queue_configuration_service.go','''	if found {
		return cacheConfig.(*configuration.QueueConfiguration), nil
	}
''','''	if found {
		config := cacheConfig.(*configuration.QueueConfiguration)

		// Keep configurations that are in use
		queueService.localCache.Set(queue, config, cache.DefaultExpiration)

		return config, nil
	}
''')]
demo='''
//go:debug asynctimerchan=0
package zdemo

import (
	"context"
	"fmt"
	"os"
	"testing"
	"testing/synctest"
	"time"

	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/queue/storage"
)

func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		c := context.Background()
		st := storage.NewMemoryStorage(c)
		a, b := queue.NewQueueConfigurationService(c, st), queue.NewQueueConfigurationService(c, st)
		end := func(code int, f string, x ...any) { // the caches' cleaners never stop
			fmt.Printf(f+"\\n", x...)
			os.Exit(code)
		}
		got := int64(0)
		for i := 0; i < 40; i++ {
			if i == 10 {
				if err := a.EditQueueConfiguration(c, &configuration.QueueConfiguration{Queue: "q", MaxElements: 77}); err != nil {
					end(1, "edit: %v", err)
				}
			}
			x, err := b.GetQueueConfiguration(c, "q")
			if err != nil {
				end(1, "read: %v", err)
			}
			got = x.MaxElements
			time.Sleep(2 * time.Minute)
		}
		if got != 77 {
			end(1, "an hour after the maximum was set to 77 another instance still reads %d", got)
		}
		end(0, "ok")
	})
}
'''
