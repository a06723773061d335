// Positive control for the interval rules: subtract() drops the upper part.
#include <cstdint>
#include <vector>
namespace ctl {
class Range {
public:
  Range(int64_t b, int64_t e) : begin_(b), end_(e) {}
  int64_t getBegin() const { return begin_; }
  int64_t getEnd() const { return end_; }
  bool contains(int64_t v) const { return v >= begin_ && v < end_; }
  bool overlaps(const Range &o) const {
    return begin_ < o.end_ && o.begin_ < end_;
  }
  std::vector<Range> subtract(const Range &o) const {
    std::vector<Range> r;
    if (!overlaps(o)) {
      r.push_back(*this);
    } else if (begin_ < o.begin_) {
      r.emplace_back(begin_, o.begin_);
    }
    return r;
  }

  // Control for the coherence rules: ignores the end.
  bool operator==(const Range &o) const { return begin_ == o.begin_; }
  bool operator<(const Range &o) const {
    return begin_ != o.begin_ ? begin_ < o.begin_ : end_ < o.end_;
  }

private:
  int64_t begin_;
  int64_t end_;
};
} // namespace ctl
