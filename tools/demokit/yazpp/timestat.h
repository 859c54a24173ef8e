#ifndef YAZPP_TIMESTAT_H
#define YAZPP_TIMESTAT_H
namespace yazpp_1 {
class TimeStat {
  public:
    TimeStat(int sz);
    ~TimeStat();
    void add_bytes(int m);
    int get_total();
  private:
    TimeStat(const TimeStat &);
    TimeStat &operator=(const TimeStat &);
    long m_sec;
    int m_ptr, m_size;
    int *m_bucket;
    void roll(long now);
};
}
#endif
