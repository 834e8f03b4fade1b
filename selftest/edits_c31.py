M='counter/metering.go'; SM='counter/serviceMetering.go'; VM='counter/valueMetering.go'; CT='task/countertask/countertask.go'
LOOP='''		for i := 0; i < curTime-m.time && i < m.bucketSize; i++ {
			if m.pos + 1 > m.bucketSize - 1 {
				m.pos = 0
			} else {
				m.pos = m.pos + 1
			}
			m.clear(m.table[m.pos])
		}
'''
SEARCH='''	period = m.check(period)
	pos := m.getPosition()

	for i := 0; i < period; i++ {
		handler(m.table[pos])
		pos=m.stepBack(pos)
	}
	return period
'''
HAND='''		sb := b.(*ServiceBucket)
		countSum += sb.count
		elapsedSum += sb.elapsed
		errorSum += sb.error
'''
EDITS=[
('C31','catch','gap-short',[(M,'i < curTime-m.time &&','i < curTime-m.time-1 &&')]),
('C31','catch','clear-old-pos',[(M,LOOP,LOOP.replace('			m.clear(m.table[m.pos])\n','').replace('i++ {\n','i++ {\n			m.clear(m.table[m.pos])\n'))]),
('C31','catch','skip-zero',[(M,LOOP,LOOP.replace('m.pos = 0','m.pos = 1'))]),
('C31','catch','wrap-late',[(M,'m.pos + 1 > m.bucketSize - 1','m.pos + 1 > m.bucketSize')]),
('C31','catch','wrap-early',[(M,'m.pos + 1 > m.bucketSize - 1','m.pos + 1 > m.bucketSize - 2')]),
('C31','catch','no-clear-zero',[(M,LOOP,LOOP.replace('			m.clear(m.table[m.pos])\n','').replace('m.pos = m.pos + 1\n','m.pos = m.pos + 1\n				m.clear(m.table[m.pos])\n'))]),
('C31','catch','limit-60',[(M,'&& i < m.bucketSize;','&& i < 60;')]),
('C31','catch','only-current',[(M,LOOP,'		m.clear(m.table[curTime % m.bucketSize])\n')]),
('C31','catch','no-clear',[(M,'			m.clear(m.table[m.pos])\n','')]),
('C31','catch','time-not-stored',[(M,'		m.time = curTime\n','')]),
('C31','catch','time-plus-one',[(M,'		m.time = curTime\n','		m.time = m.time + 1\n')]),
('C31','catch','pos-mod-other',[(M,'		m.pos = m.time % m.bucketSize','		m.pos = m.time % 300')]),
('C31','catch','init-pos-zero',[(M,'	metering.pos = int(metering.time % bucketSize)\n','')]),
('C31','catch','second-clock',[(M,'		m.time = curTime\n','		m.time = getTimestamp()\n')]),
('C31','catch','clock-minute',[(M,'if curTime != m.time {','if curTime/10 != m.time/10 {')]),
('C31','catch','half-table',[(M,'for i := 0; i < bucketSize; i++ {','for i := 0; i < bucketSize/2; i++ {')]),
('C31','catch','search-forward',[(M,'		pos=m.stepBack(pos)\n	}\n	return period','		pos=(pos+1)%m.bucketSize\n	}\n	return period')]),
('C31','catch','search-offset',[(M,SEARCH,SEARCH.replace('pos := m.getPosition()','pos := m.stepBack(m.getPosition())'))]),
('C31','catch','search-zero-pos',[(M,'		pos = m.bucketSize - 1\n','		pos = m.bucketSize - 2\n')]),
('C31','catch','search-le',[(M,SEARCH,SEARCH.replace('i < period','i <= period'))]),
('C31','catch','search-stops',[(M,SEARCH,SEARCH.replace('		handler(m.table[pos])','		if pos == 0 {\n			break\n		}\n		handler(m.table[pos])'))]),
('C31','catch','search-raw-pos',[(M,SEARCH,SEARCH.replace('pos := m.getPosition()','pos := m.pos'))]),
('C31','catch','search-skip',[(M,SEARCH,SEARCH.replace('		handler(m.table[pos])','		if i % 2 == 0 {\n			handler(m.table[pos])\n		}'))]),
('C31','catch','check-off',[(M,'	if period >= m.bucketSize {\n		period = m.bucketSize - 1\n	}\n','')]),
('C31','catch','check-lower',[(M,'	if period >= m.bucketSize {\n		period = m.bucketSize - 1\n	}\n','	if period >= 100 {\n		period = 100\n	}\n')]),
('C31','catch','return-asked',[(M,SEARCH,SEARCH.replace('	period = m.check(period)\n','	asked := period\n	period = m.check(period)\n').replace('return period','return asked'))]),
('C31','catch','small-table',[(M,'bucketSize := 301','bucketSize := 300')]),
('C31','catch','clear-misses-error',[(SM,'					sb.error = 0\n','')]),
('C31','catch','clear-misses-count',[(VM,'				sb.count = 0\n','')]),
('C31','catch','error-always',[(SM,'	if (err) {\n		b.error++\n	}','	b.error++')]),
('C31','catch','error-instead',[(SM,'	b.count++\n	b.elapsed += elapsed\n	if (err) {\n		b.error++\n	}','	if (err) {\n		b.error++\n	} else {\n		b.count++\n	}\n	b.elapsed += elapsed')]),
('C31','catch','elapsed-assign',[(SM,'b.elapsed += elapsed','b.elapsed = elapsed')]),
('C31','catch','neg-elapsed',[(SM,'	if elapsed < 0 {elapsed = 0}\n','')]),
('C31','catch','neg-dropped',[(SM,'	if elapsed < 0 {elapsed = 0}\n','	if elapsed < 0 {\n		return\n	}\n')]),
('C31','catch','sum-wrong-field',[(SM,'errorSum += sb.error','errorSum += sb.count')]),
('C31','catch','sum-skips',[(SM,HAND,HAND.replace('		countSum','		if sb.error > 0 {\n			return\n		}\n		countSum'))]),
('C31','catch','tps-const',[(SM,'float32(countSum) / float32(period)','float32(countSum) / 30')]),
('C31','catch','tps-int',[(SM,'float32(countSum) / float32(period)','float32(countSum / period)')]),
('C31','catch','rate-int',[(SM,'float32(errorSum) / float32(countSum) * 100.0','float32(errorSum / countSum * 100)')]),
('C31','catch','rate-no-percent',[(SM,' / float32(countSum) * 100.0',' / float32(countSum)')]),
('C31','catch','rate-of-period',[(SM,'float32(errorSum) / float32(countSum)','float32(errorSum) / float32(period)')]),
('C31','catch','elapsed-per-sec',[(SM,'elapsed = elapsedSum / countSum','elapsed = elapsedSum / period')]),
('C31','catch','no-guard',[(SM,'	if countSum != 0 {\n','	if period != 0 {\n')]),
('C31','catch','crossed',[(SM,'		Tps:       tps,\n		Elapsed:   elapsed,\n		ErrorRate: errorRate,','		Tps:       errorRate,\n		Elapsed:   elapsed,\n		ErrorRate: tps,')]),
('C31','catch','avg-no-guard',[(VM,'	if count == 0 {\n		avg = 0\n	} else {\n		avg = sum / float64(count)\n	}','	avg = sum / float64(period)')]),
('C31','catch','period-ignored',[(SM,'SearchOnHandler(period, func','SearchOnHandler(30, func')]),
('C31','catch','value-count-two',[(VM,'	b.count++','	b.count += 2')]),
('C31','catch','period-too-long',[(CT,'GetServiceMeter().GetAllCounter(300)','GetServiceMeter().GetAllCounter(600)')]),
('C31','catch','reset-window',[(M,None,'\nfunc (m *Metering) Reset() { m.Lock(); m.pos = 0; m.Unlock() }\n')]),
('C31','quiet','mod-advance',[(M,LOOP,'		for i := 0; i < curTime-m.time && i < m.bucketSize; i++ {\n			m.pos = (m.pos + 1) % m.bucketSize\n			m.clear(m.table[m.pos])\n		}\n')]),
('C31','quiet','clamped',[(M,LOOP,'		gap := curTime - m.time\n		if gap > m.bucketSize {\n			gap = m.bucketSize\n		}\n		pos := m.pos\n		for ; gap > 0; gap-- {\n			pos++\n			if pos == m.bucketSize {\n				pos = 0\n			}\n			m.clear(m.table[pos])\n		}\n')]),
('C31','quiet','by-time',[(M,LOOP,'		for i := 1; i <= curTime-m.time && i <= m.bucketSize; i++ {\n			m.clear(m.table[(m.time+i)%m.bucketSize])\n		}\n')]),
('C31','quiet','by-second',[(M,LOOP,'		for t, n := m.time+1, 0; t <= curTime; t, n = t+1, n+1 {\n			if n == m.bucketSize {\n				break\n			}\n			m.clear(m.table[t%m.bucketSize])\n		}\n')]),
('C31','quiet','all-when-long',[(M,LOOP,'		if curTime-m.time >= m.bucketSize {\n			for i := 0; i < m.bucketSize; i++ {\n				m.clear(m.table[i])\n			}\n		} else {\n			for i := 0; i < curTime-m.time; i++ {\n				m.pos = (m.pos + 1) % m.bucketSize\n				m.clear(m.table[m.pos])\n			}\n		}\n')]),
('C31','quiet','all-when-long-range',[(M,LOOP,'		if curTime-m.time >= m.bucketSize {\n			for _, b := range m.table {\n				m.clear(b)\n			}\n		} else {\n			for i := 0; i < curTime-m.time; i++ {\n				m.pos = (m.pos + 1) % m.bucketSize\n				m.clear(m.table[m.pos])\n			}\n		}\n')]),
('C31','quiet','early-return',[(M,'	if curTime != m.time {\n'+LOOP+'		m.time = curTime\n		m.pos = m.time % m.bucketSize\n	}\n','	if curTime == m.time {\n		return m.pos\n	}\n	m.advance(curTime - m.time)\n	m.time = curTime\n	m.pos = curTime % m.bucketSize\n'),(M,None,'\nfunc (m *Metering) advance(gap int) {\n	for i := 0; i < gap && i < m.bucketSize; i++ {\n		next := m.pos + 1\n		if next >= m.bucketSize {\n			next = 0\n		}\n		m.pos = next\n		m.clear(m.table[next])\n	}\n}\n')]),
('C31','quiet','forward-only',[(M,'if curTime != m.time {','if curTime > m.time {')]),
('C31','quiet','search-mod',[(M,SEARCH,SEARCH.replace('pos=m.stepBack(pos)','pos = (pos - 1 + m.bucketSize) % m.bucketSize'))]),
('C31','quiet','search-index',[(M,SEARCH,SEARCH.replace('		handler(m.table[pos])\n		pos=m.stepBack(pos)\n','		handler(m.table[(pos-i+m.bucketSize)%m.bucketSize])\n'))]) if False else
('C31','quiet','search-down',[(M,SEARCH,SEARCH.replace('for i := 0; i < period; i++ {','for left := period; left > 0; left-- {'))]),
('C31','quiet','inline-check',[(M,SEARCH,SEARCH.replace('	period = m.check(period)\n','	if period > m.bucketSize-1 {\n		period = m.bucketSize - 1\n	}\n'))]),
('C31','quiet','const-size',[(M,'	bucketSize := 301\n','	const bucketSize = 301\n')]),
('C31','quiet','fill-range',[(M,'	for i := 0; i < bucketSize; i++ {\n		metering.table[i]','	for i := range metering.table {\n		metering.table[i]')]),
('C31','quiet','literal',[(M,'	metering := &Metering{}\n	metering.bucketSize = bucketSize\n	metering.time = getTimestamp()\n	metering.pos = int(metering.time % bucketSize)\n	metering.table = make([]interface{}, bucketSize)\n	metering.clear = clear\n','	now := getTimestamp()\n	metering := &Metering{bucketSize: bucketSize, time: now, pos: now % bucketSize, table: make([]interface{}, bucketSize), clear: clear}\n')]),
('C31','quiet','clear-struct',[(SM,'					sb.count = 0\n					sb.elapsed = 0\n					sb.error = 0\n','					*sb = ServiceBucket{}\n')]),
('C31','quiet','sum-struct',[(SM,'	var countSum int\n	var elapsedSum int\n	var errorSum int\n','	var sum ServiceBucket\n'),(SM,'		countSum += sb.count\n		elapsedSum += sb.elapsed\n		errorSum += sb.error\n','		sum.count += sb.count\n		sum.elapsed += sb.elapsed\n		sum.error += sb.error\n'),(SM,'float32(countSum) / float32(period)','float32(sum.count) / float32(period)'),(SM,'	if countSum != 0 {\n		elapsed = elapsedSum / countSum\n		errorRate = float32(errorSum) / float32(countSum) * 100.0\n','	if sum.count != 0 {\n		elapsed = sum.elapsed / sum.count\n		errorRate = float32(sum.error) / float32(sum.count) * 100.0\n')]),
('C31','quiet','early-empty',[(SM,'	if countSum != 0 {\n		elapsed = elapsedSum / countSum\n		errorRate = float32(errorSum) / float32(countSum) * 100.0\n	}\n','	if countSum == 0 {\n		return &ServiceCounter{Tps: tps}\n	}\n	elapsed = elapsedSum / countSum\n	errorRate = 100.0 * float32(errorSum) / float32(countSum)\n')]),
('C31','quiet','gt-zero',[(SM,'if countSum != 0 {','if countSum > 0 {')]),
('C31','quiet','add-helper',[(SM,'	b := g.metering.GetCurrentBucket().(*ServiceBucket)\n	b.count++\n	b.elapsed += elapsed\n	if (err) {\n		b.error++\n	}\n','	g.metering.GetCurrentBucket().(*ServiceBucket).add(elapsed, err)\n'),(SM,None,'\nfunc (b *ServiceBucket) add(elapsed int, err bool) {\n	b.count += 1\n	b.elapsed = b.elapsed + elapsed\n	if !err {\n		return\n	}\n	b.error++\n}\n')]),
('C31','quiet','neg-guard',[(SM,'	if elapsed < 0 {elapsed = 0}\n',''),(SM,'	b.elapsed += elapsed\n','	if elapsed > 0 {\n		b.elapsed += elapsed\n	}\n')]),
]
