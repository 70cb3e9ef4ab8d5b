S='src/'; I='include/Lintel/'
MUTS=[
 ('C10','stats-reset-sumsq',S+'Stats.cpp','''    sum = 0.0;
    sumsq = 0.0;
    min_value''','''    sum = 0.0;
    if (reset_count <= 1) { sumsq = 0.0; }
    min_value''','V'),
 ('C10','seq-remain',S+'StatsSequence.cpp','''    points_per_bucket = 1;
    points_remain_new_bucket = 1;
}''','''    points_remain_new_bucket = points_per_bucket;
}''','V'),
 ('C10','series-first',S+'StatsSeries.cpp','''    firstsamples[i] = 0;
  }
  sampleno = 0;''','''  }
  sampleno = 0;''','V'),
 ('C10','quantile-even',S+'StatsQuantile.cpp','''    collapse_even_low = true;
    if (lazy) {''','''    if (lazy) {''','V'),
 ('C10','hist-bins',S+'StatsHistogram.cpp','''    StatsHistogram::reset();	// This counts the resets for us
    for (unsigned bin=0; bin < num_bins; bin++) {
	bins[bin] = 0;
    }
    num_rescales = 0;''','''    StatsHistogram::reset();	// This counts the resets for us
    num_rescales = 0;''','V'),
 ('C10','hist-rescales',S+'StatsHistogram.cpp','''	bins[bin] = 0;
    }
    num_rescales = 0;''','''	bins[bin] = 0;
    }''','V'),
 ('C10','accum-notreset',S+'StatsHistogram.cpp','''    for (unsigned bin=0; bin < num_bins; bin++)
	val_bins[bin] = 0.0;
}

void StatsHistogramUniformAccum::add''','''}

void StatsHistogramUniformAccum::add''','V'),
 ('C10','ht-clear-free',I+'HashTable.hpp','''	 free_list = -1;
	 free_list_size = 0;
''','''	 free_list = -1;
''','V'),
 ('C10','ht-clear-if',I+'HashTable.hpp','''	 free_list = -1;
	 free_list_size = 0;
''','''	 if (!chains.empty()) {
	 free_list = -1;
	 free_list_size = 0;
	 }
''','V'),
 ('C10','ht-assign-target',I+'HashTable.hpp','''	target_chain_length = __in.target_chain_length;
''','''''','V'),
 ('C10','ht-assign-hash',I+'HashTable.hpp','''	hashfn = __in.hashfn;
''','''''','V'),
 ('C10','iter-assign',I+'HashTable.hpp','''	    this->cur_chain = right.cur_chain;
	    this->chain_loc = right.chain_loc;
	    return *this;''','''	    this->cur_chain = right.cur_chain;
	    if (right.chain_loc >= 0) { this->chain_loc = right.chain_loc; }
	    return *this;''','V'),
 ('C10','stats-merge-sum',S+'Stats.cpp','''    sumsq += stat.sumsq;''','''    sumsq += stat.sum * stat.sum;''','V'),
 ('C10','stats-merge-max',S+'Stats.cpp','''    if (stat.max_value > max_value) {
	max_value = stat.max_value;''','''    if (stat.max_value > min_value) {
	max_value = stat.max_value;''','V'),
 ('C10','stats-merge-nomax',S+'Stats.cpp','''    if (stat.max_value > max_value) {
	max_value = stat.max_value;
    }
''','','V'),
 ('C10','group-add-count',S+'StatsSeriesGroup.cpp','''    stats[stats.size()-1]->addTimeSeq(value, timeSeq);
    Stats::add(value);''','''    stats[stats.size()-1]->addTimeSeq(value, timeSeq);
    if (timeSeq > first_time) {
	Stats::add(value);
    }''','V'),
 ('C10','ema-twice',S+'StatsEMA.cpp','''    Stats::add(value);
    for(unsigned i = 0;i<ema_values.size();++i) {
	if (count_low[i]) {''','''    Stats::add(value);
    for(unsigned i = 0;i<ema_values.size();++i) {
	if (i > 0 && count_low[i] && !count_low[i-1]) Stats::add(value);
	if (count_low[i]) {''','V'),
 ('C10','bb-copy',I+'HashMap.hpp','''	hashtable = __in.hashtable;
''','''	if (__in.size() > 0) { hashtable = __in.hashtable; }
''','V'),
 ('C10','q-stats-swap',S+'Stats.cpp','''    number = 0;
    sum = 0.0;
    sumsq = 0.0;
    min_value = Double::Inf;
    max_value = -Double::Inf;''','''    max_value = -Double::Inf;
    min_value = -max_value;
    sum = sumsq = 0.0;
    number = 0;''','Q'),
 ('C10','q-merge-std',S+'Stats.cpp','''    if (stat.max_value > max_value) {
	max_value = stat.max_value;
    }''','''    max_value = std::max(max_value, stat.max_value);
    const double other_sum = stat.sum; (void)other_sum;''','Q'),
 ('C10','q-merge-ternary',S+'Stats.cpp','''    if (stat.min_value < min_value) {
	min_value = stat.min_value;
    }
    if (stat.max''','''    min_value = stat.min_value < min_value ? stat.min_value : min_value;
    if (stat.max''','Q'),
 ('C10','q-series-memset',S+'StatsSeries.cpp','''  for (unsigned i=0; i<=max_lag; i++) {
    samples[i] = 0;
    product[i] = 0;
    firstsamples[i] = 0;
  }''','''  for (unsigned i=0; i<=max_lag; i++) {
    samples[i] = 0;
    product[i] = 0;
  }
  std::fill(firstsamples, firstsamples + max_lag + 1, 0.0);''','Q'),
 ('C10','q-hist-fill',S+'StatsHistogram.cpp','''    for (unsigned bin=0; bin < num_bins; bin++)
	val_bins[bin] = 0.0;
}

void StatsHistogramUniformAccum::add''','''    unsigned bin = num_bins;
    while (bin > 0) {
	val_bins[--bin] = 0.0;
    }
}

void StatsHistogramUniformAccum::add''','Q'),
 ('C10','q-seq-helper',[I+'StatsSequence.hpp',S+'StatsSequence.cpp'],['''    virtual void reset();''','''    values.resize(0);
    new_value = 0;
    points_per_bucket = 1;
    points_remain_new_bucket = 1;
}'''],['''    void startBucket() { new_value = 0; points_remain_new_bucket = points_per_bucket; }
    virtual void reset();''','''    values.clear();
    points_per_bucket = 1;
    startBucket();
}'''],'Q'),
 ('C10','q-ht-swap',I+'HashTable.hpp','''	 free_list = -1;
	 free_list_size = 0;
''','''	 free_list_size = 0;
	 free_list = -1;
''','Q'),
 ('C16','marsaglia-i',I+'MarsagliaRandom.hpp','''            i = SIZE - 1; // the first value drawn updates x[0]
''','','V'),
 ('C16','pq-size',I+'PriorityQueue.hpp','''pq_size(0)''','''pq_size()''','Q'),
 ('C16','seq-width',S+'StatsSequence.cpp','''    intervalWidth = 1;
''','','V'),
 ('C16','quantile-tmp',S+'StatsQuantile.cpp','''    } else {
	tmp_buffer = NULL;
    }
    collapse_pos''','''    }
    collapse_pos''','V'),
 ('C16','grouplast',S+'StatsSeriesGroup.cpp','''    first_time(Double::NaN),
''','','V'),
 ('C16','uninit-lazy',S+'StatsQuantile.cpp',''', print_nrange(_print_nrange), lazy(true)
{''',''', print_nrange(_print_nrange)
{''','V'),
]
