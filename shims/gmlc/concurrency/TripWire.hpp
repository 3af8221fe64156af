// Stand-in for GMLC-TDC/concurrency (submodule not available offline).
#pragma once
#include <atomic>
#include <memory>
#include <utility>

namespace gmlc::concurrency {
using triplineType = std::shared_ptr<std::atomic<bool>>;
using lineType = triplineType;

class TripWire {
  public:
    static triplineType getLine() { return line(); }
    static triplineType getIndexedLine(unsigned int /*index*/) { return line(); }

  private:
    static triplineType& line()
    {
        static triplineType staticLine = std::make_shared<std::atomic<bool>>(false);
        return staticLine;
    }
};
#define DECLARE_TRIPLINE()
#define DECLARE_INDEXED_TRIPLINES(X)

inline triplineType make_tripline()
{
    return std::make_shared<std::atomic<bool>>(false);
}

class TripWireTrigger {
  public:
    TripWireTrigger(): line(TripWire::getLine()) {}
    explicit TripWireTrigger(unsigned int index): line(TripWire::getIndexedLine(index)) {}
    explicit TripWireTrigger(triplineType l): line(std::move(l)) {}
    TripWireTrigger(TripWireTrigger&&) = default;
    TripWireTrigger(const TripWireTrigger&) = delete;
    TripWireTrigger& operator=(TripWireTrigger&&) = default;
    TripWireTrigger& operator=(const TripWireTrigger&) = delete;
    ~TripWireTrigger()
    {
        if (line) {
            line->store(true, std::memory_order_release);
        }
    }

  private:
    triplineType line;
};

class TripWireDetector {
  public:
    TripWireDetector(): line(TripWire::getLine()) {}
    explicit TripWireDetector(unsigned int index): line(TripWire::getIndexedLine(index)) {}
    explicit TripWireDetector(triplineType l): line(std::move(l)) {}
    bool isTripped() const { return line && line->load(std::memory_order_acquire); }

  private:
    std::shared_ptr<const std::atomic<bool>> line;
};
}  // namespace gmlc::concurrency
