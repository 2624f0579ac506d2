// General containers and helpers.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "geometry/Point2LL.h"
#include "raft.h"
#include "settings/types/LayerIndex.h"
#include "utils/Date.h"
#include "utils/MinimumSpanningTree.h"
#include "utils/gettime.h"
#include <algorithm>
#include <assert.h>
#include <bitset>
#include <boost/archive/iterators/base64_from_binary.hpp>
#include <boost/archive/iterators/ostream_iterator.hpp>
#include <boost/archive/iterators/transform_width.hpp>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio> // snprintf
#include <cstdio> // sscanf
#include <cstring> // strstr
#include <ctype.h>
#include <iomanip> // setw, setfill
#include <iterator>
#include <limits> //To get the max size_t as invalid value for the result of find().
#include <list>
#include <numeric>
#include <spdlog/spdlog.h>
#include <spdlog/stopwatch.h>
#include <sstream>
#include <sstream> // ostringstream
#include <stddef.h> //For size_t.
#include <string>
#include <unordered_map> //To map the data type to indices for user's convenience.
#include <utility>
#include <utility> // pair
#include <vector>
#include <vector> //Holds the main data.
#include "utils/LayerVector.h"
#include "utils/PairHash.h"
#include "utils/UnionFind.h"
#include "utils/algorithm.h"
#include "utils/gettime.h"
#include "utils/orderOptimizer.h"
#include "utils/string.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::LayerVector::init | cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>
namespace n1
{
using LayerVector = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>;
void r1(cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>& self, bool contains_raft_layers, size_t print_layers)
{
    self.delta_ = contains_raft_layers ? Raft::getTotalExtraLayers() : 0;
    self.vector_.clear();
    if (print_layers)
    {
        self.vector_.reserve(print_layers + self.delta_);
    }
}
} // namespace n1

//= cura::LayerVector::init | cura::LayerVector<cura::Polygon>
namespace n2
{
using LayerVector = cura::LayerVector<cura::Polygon>;
void r2(cura::LayerVector<cura::Polygon>& self, bool contains_raft_layers, size_t print_layers)
{
    self.delta_ = contains_raft_layers ? Raft::getTotalExtraLayers() : 0;
    self.vector_.clear();
    if (print_layers)
    {
        self.vector_.reserve(print_layers + self.delta_);
    }
}
} // namespace n2

//= cura::LayerVector::end | cura::LayerVector<cura::Polygon>
namespace n7
{
using LayerVector = cura::LayerVector<cura::Polygon>;
using const_iterator = cura::LayerVector<cura::Polygon>::const_iterator;
const_iterator r7(const cura::LayerVector<cura::Polygon>& self)
{
    return self.vector_.end();
}
} // namespace n7

//= cura::LayerVector::end | cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>
namespace n10
{
using LayerVector = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>;
using iterator = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>::iterator;
iterator r10(cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>& self)
{
    return self.vector_.end();
}
} // namespace n10

//= cura::LayerVector::rbegin | cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>
namespace n11
{
using LayerVector = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>;
using const_reverse_iterator = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>::const_reverse_iterator;
const_reverse_iterator r11(const cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>& self)
{
    return self.vector_.rbegin();
}
} // namespace n11

//= cura::LayerVector::rend | cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>
namespace n12
{
using LayerVector = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>;
using const_reverse_iterator = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>::const_reverse_iterator;
const_reverse_iterator r12(const cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>& self)
{
    return self.vector_.rend();
}
} // namespace n12

//= cura::LayerVector::operator[] | cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>
namespace n13
{
using LayerVector = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>;
using const_reference = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>::const_reference;
const_reference r13(const cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>& self, const LayerIndex& pos)
{
    return self.vector_[static_cast<size_t>(pos + self.delta_)];
}
} // namespace n13

//= cura::LayerVector::front | cura::LayerVector<cura::Polygon>
namespace n14
{
using LayerVector = cura::LayerVector<cura::Polygon>;
using const_reference = cura::LayerVector<cura::Polygon>::const_reference;
const_reference r14(const cura::LayerVector<cura::Polygon>& self)
{
    return self.vector_.front();
}
} // namespace n14

//= cura::LayerVector::get | cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>
namespace n17
{
using LayerVector = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>;
using value_type = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>::value_type;
value_type r17(const cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>& self, const LayerIndex& pos)
{
    LayerIndex::value_type index = pos + self.delta_;
    if (index >= 0 && static_cast<size_t>(index) < self.size())
    {
        return self.vector_[static_cast<size_t>(index)];
    }
    return value_type{};
}
} // namespace n17

//= cura::LayerVector::getLayer | cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>
namespace n18
{
using LayerVector = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>;
using const_iterator = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>::const_iterator;
using difference_type = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>::difference_type;
LayerIndex r18(const cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>& self, const const_iterator& it)
{
    return std::distance(self.begin(), it) - static_cast<difference_type>(self.delta_);
}
} // namespace n18

//= cura::LayerVector::getLayer | cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>
namespace n19
{
using LayerVector = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>;
using const_reverse_iterator = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>::const_reverse_iterator;
using difference_type = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>::difference_type;
LayerIndex r19(const cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>& self, const const_reverse_iterator& it)
{
    return std::distance(it, self.rend()) - 1 - static_cast<difference_type>(self.delta_);
}
} // namespace n19

//= cura::LayerVector::push_back | cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>
namespace n20
{
using LayerVector = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>;
using const_reference = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>::const_reference;
void r20(cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>& self, const_reference item)
{
    self.vector_.push_back(item);
}
} // namespace n20

//= cura::LayerVector::size | cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>
namespace n23
{
using LayerVector = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>;
size_t r23(const cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>& self)
{
    return self.vector_.size();
}
} // namespace n23

//= cura::LayerVector::size | cura::LayerVector<cura::Polygon>
namespace n24
{
using LayerVector = cura::LayerVector<cura::Polygon>;
size_t r24(const cura::LayerVector<cura::Polygon>& self)
{
    return self.vector_.size();
}
} // namespace n24

//= cura::LayerVector::empty | cura::LayerVector<cura::Polygon>
namespace n25
{
using LayerVector = cura::LayerVector<cura::Polygon>;
bool r25(const cura::LayerVector<cura::Polygon>& self)
{
    return self.vector_.empty();
}
} // namespace n25

//= cura::order | ta=int
namespace n33
{
using T = int;
std::vector<size_t> r33(const std::vector<T>& in)
{
    std::vector<size_t> order(in.size());
    std::iota(order.begin(), order.end(), 0); 
    std::stable_sort(
        order.begin(),
        order.end(),
        [&in](size_t i1, size_t i2)
        {
            return in[i1] < in[i2];
        });
    return order;
}
} // namespace n33

//= cura::TimeKeeper::getRegisteredTimes
namespace n34
{
using RegisteredTimes = cura::TimeKeeper::RegisteredTimes;
const RegisteredTimes& r34(const cura::TimeKeeper& self)
{
    return self.registered_times;
}
} // namespace n34

//= cura::OrderOptimizer::OrderOptimizer | cura::OrderOptimizer<unsigned long>
namespace n35
{
using OrderOptimizer = cura::OrderOptimizer<unsigned long>;
void r35(cura::OrderOptimizer<unsigned long>& self)
{
}
} // namespace n35

//= cura::OrderOptimizer::addItem | cura::OrderOptimizer<unsigned long>
namespace n36
{
using T = unsigned long;
using OrderOptimizer = cura::OrderOptimizer<unsigned long>;
void r36(cura::OrderOptimizer<unsigned long>& self, const Point2LL location, const T item)
{
    self.items.emplace_back(location, item);
}
} // namespace n36

//= cura::OrderOptimizer::optimize | cura::OrderOptimizer<unsigned long>
namespace n37
{
using OrderOptimizer = cura::OrderOptimizer<unsigned long>;
std::list<size_t> r37(cura::OrderOptimizer<unsigned long>& self, const Point2LL& start_position)
{
    std::list<size_t> order;
    std::vector<size_t> item_idx_list;
    if (self.items.size() == 0)
    {
        return order;
    }
    for (size_t i = 0; i < self.items.size(); i++)
    {
        item_idx_list.emplace_back(i);
    }
    const Point2LL* last_item_position = &start_position;
    while (! item_idx_list.empty())
    {
        coord_t shortest_distance = POINT_MAX;
        size_t shortest_distance_item_idx = -1;
        size_t idx_in_list = -1;
        for (size_t idx = 0; idx < item_idx_list.size(); idx++)
        {
            const size_t item_idx = item_idx_list[idx];
            const Point2LL& position = self.items[item_idx].first;
            const coord_t distance = vSize(position - *last_item_position);
            if (distance < shortest_distance)
            {
                shortest_distance = distance;
                shortest_distance_item_idx = item_idx;
                idx_in_list = idx;
            }
        }
        order.push_back(shortest_distance_item_idx);
        last_item_position = &(self.items[shortest_distance_item_idx].first);
        item_idx_list.erase(item_idx_list.begin() + idx_in_list);
    }
    return order;
}
} // namespace n37

//= cura::stringcasecompare
int r38(const char* a, const char* b)
{
    while (*a && *b)
    {
        if (tolower(*a) != tolower(*b))
            return tolower(*a) - tolower(*b);
        a++;
        b++;
    }
    return *a - *b;
}

//= cura::convertTobase64
std::string r39(const std::string& input)
{
    using namespace boost::archive::iterators;
    std::stringstream output;
    typedef base64_from_binary<transform_width<std::string::const_iterator, 6, 8>> base64_enc;
    std::copy(base64_enc(input.begin()), base64_enc(input.end()), ostream_iterator<char>(output));
    std::string output_encoded = output.str();
    size_t num = (3 - input.length() % 3) % 3;
    for (size_t i = 0; i < num; i++)
    {
        output_encoded.push_back('=');
    }
    return output_encoded;
}

//= cura::writeInt2mm
void r40(const int32_t coord, std::ostream& ss)
{
    constexpr size_t buffer_size = 24;
    char buffer[buffer_size];
    int char_count
        = snprintf(buffer, buffer_size, "%d", coord); 
#ifdef DEBUG
    if (char_count + 1 >= int(buffer_size)) 
    {
    }
    if (char_count < 0)
    {
    }
#endif 
    int end_pos = char_count; 
    int trailing_zeros = 1;
    while (trailing_zeros < 4 && buffer[char_count - trailing_zeros] == '0')
    {
        trailing_zeros++;
    }
    trailing_zeros--;
    end_pos = char_count - trailing_zeros;
    if (trailing_zeros == 3)
    { 
        buffer[char_count - trailing_zeros] = '\0';
        ss << buffer;
        return;
    }
    if (char_count <= 3)
    {
        int start = 0; 
        if (coord < 0)
        {
            ss << '-';
            start = 1;
        }
        ss << "0.";
        for (int nulls = char_count - start; nulls < 3; nulls++)
        { 
            ss << '0';
        }
        buffer[char_count - trailing_zeros] = '\0';
        ss << (static_cast<char*>(buffer) + start);
    }
    else
    {
        char prev = '.';
        int pos;
        for (pos = char_count - 3; pos <= end_pos; pos++)
        { 
            char next_prev = buffer[pos];
            buffer[pos] = prev;
            prev = next_prev;
        }
        buffer[pos] = '\0';
        ss << buffer;
    }
}

//= cura::operator<<
std::ostream& r41(std::ostream& out, const MMtoStream precision_and_input)
{
    writeInt2mm(precision_and_input.value, out);
    return out;
}

//= cura::writeDoubleToStream
void r42(const uint8_t precision, const double coord, std::ostream& ss)
{
    char format[5] = "%.xF"; 
    format[2] = '0' + static_cast<char>(precision); 
    constexpr size_t buffer_size = 400;
    char buffer[buffer_size];
    int char_count = snprintf(buffer, buffer_size, format, coord);
#ifdef DEBUG
    if (char_count + 1 >= int(buffer_size)) 
    {
    }
    if (char_count < 0)
    {
    }
#endif 
    if (char_count <= 0)
    {
        return;
    }
    if (buffer[char_count - precision - 1] == '.')
    {
        int non_nul_pos = char_count - 1;
        while (buffer[non_nul_pos] == '0')
        {
            non_nul_pos--;
        }
        if (buffer[non_nul_pos] == '.')
        {
            buffer[non_nul_pos] = '\0';
        }
        else
        {
            buffer[non_nul_pos + 1] = '\0';
        }
    }
    ss << buffer;
}

//= cura::PrecisionedDouble::wouldWriteZero
bool r43(const cura::PrecisionedDouble& self)
{
    return (std::abs(self.value) * std::pow(10.0, self.precision)) < 1.0;
}

//= cura::operator<<
std::ostream& r44(std::ostream& out, const PrecisionedDouble precision_and_input)
{
    writeDoubleToStream(precision_and_input.precision, precision_and_input.value, out);
    return out;
}

//= cura::operator<<
std::ostream& r45(std::ostream& os, const Escaped& e)
{
    for (const char* char_p = e.str; *char_p != '\0'; char_p++)
    {
        switch (*char_p)
        {
        case '\a':
            os << "\\a";
            break;
        case '\b':
            os << "\\b";
            break;
        case '\f':
            os << "\\f";
            break;
        case '\n':
            os << "\\n";
            break;
        case '\r':
            os << "\\r";
            break;
        case '\t':
            os << "\\t";
            break;
        case '\v':
            os << "\\v";
            break;
        case '\\':
            os << "\\\\";
            break;
        case '\'':
            os << "\\'";
            break;
        case '\"':
            os << "\\\"";
            break;
        case '\?':
            os << "\\\?";
            break;
        default:
            os << *char_p;
        }
    }
    return os;
}

//= cura::Date::Date
void r46(cura::Date& self, int year, int month, int day)
{
        member(self.year_) = year;
        member(self.month_) = month;
        member(self.day_) = day;
}

//= cura::Date::toStringDashed
std::string r47(cura::Date& self)
{
    std::ostringstream str;
    str << std::setfill('0') << std::setw(4) << self.year_ << "-" << std::setfill('0') << std::setw(2) << self.month_ << "-" << std::setfill('0') << std::setw(2) << self.day_;
    return str.str();
}

//= cura::Date::Date
void r48(cura::Date& self)
{
        member(self.year_) = -1;
        member(self.month_) = -1;
        member(self.day_) = -1;
}

//= cura::Date::getDate
Date r49()
{
    Date ret;
    const char* build_date = __DATE__;
    char s_month[5];
    static const char month_names[] = "JanFebMarAprMayJunJulAugSepOctNovDec";
    std::sscanf(build_date, "%s %d %d", s_month, &ret.day_, &ret.year_);
    ret.month_ = (strstr(month_names, s_month) - month_names) / 3;
    ret.month_++; 
    return ret;
}

//= cura::MinimumSpanningTree::MinimumSpanningTree
void r50(cura::MinimumSpanningTree& self, std::vector<Point2LL> vertices)
{
        member(self.adjacency_graph) = self.prim(vertices);
}

//= cura::MinimumSpanningTree::adjacentNodes
namespace n52
{
using AdjacencyGraph_t = cura::MinimumSpanningTree::AdjacencyGraph_t;
using Edge = cura::MinimumSpanningTree::Edge;
std::vector<Point2LL> r52(const cura::MinimumSpanningTree& self, Point2LL node)
{
    std::vector<Point2LL> result;
    AdjacencyGraph_t::const_iterator adjacency_entry = self.adjacency_graph.find(node);
    if (adjacency_entry != self.adjacency_graph.end())
    {
        const auto& edges = adjacency_entry->second;
        std::transform(
            edges.begin(),
            edges.end(),
            std::back_inserter(result),
            [&node](const Edge& e)
            {
                return (e.start == node) ? e.end : e.start;
            });
    }
    return result;
}
} // namespace n52

//= cura::MinimumSpanningTree::leaves
namespace n53
{
using Edge = cura::MinimumSpanningTree::Edge;
std::vector<Point2LL> r53(const cura::MinimumSpanningTree& self)
{
    std::vector<Point2LL> result;
    for (std::pair<Point2LL, std::vector<Edge>> node : self.adjacency_graph)
    {
        if (node.second.size() <= 1) 
        {
            result.push_back(node.first);
        }
    }
    return result;
}
} // namespace n53

//= cura::MinimumSpanningTree::vertices
namespace n54
{
using Edge = cura::MinimumSpanningTree::Edge;
std::vector<Point2LL> r54(const cura::MinimumSpanningTree& self)
{
    std::vector<Point2LL> result;
    using MapValue = std::pair<Point2LL, std::vector<Edge>>;
    std::transform(
        self.adjacency_graph.begin(),
        self.adjacency_graph.end(),
        std::back_inserter(result),
        [](const MapValue& node)
        {
            return node.first;
        });
    return result;
}
} // namespace n54

//= cura::TimeKeeper::TimeKeeper
void r55(cura::TimeKeeper& self)
{
}

//= cura::TimeKeeper::restart
double r56(cura::TimeKeeper& self)
{
    double ret = self.watch.elapsed().count();
    self.watch.reset();
    return ret;
}

//= cura::TimeKeeper::registerTime
namespace n57
{
using RegisteredTime = cura::TimeKeeper::RegisteredTime;
void r57(cura::TimeKeeper& self, const std::string& stage, double threshold)
{
    double duration = self.restart();
    if (duration >= threshold)
    {
        self.registered_times.emplace_back(RegisteredTime{ stage, duration });
    }
}
} // namespace n57

//= cura::LayerVector::begin | cura::LayerVector<cura::Polygon>
namespace n2034
{
using LayerVector = cura::LayerVector<cura::Polygon>;
using const_iterator = cura::LayerVector<cura::Polygon>::const_iterator;
const_iterator r2034(const cura::LayerVector<cura::Polygon>& self)
{
    return self.vector_.begin();
}
} // namespace n2034

//= cura::LayerVector::begin | cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>
namespace n2037
{
using LayerVector = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>;
using iterator = cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>::iterator;
iterator r2037(cura::LayerVector<std::vector<cura::ExtruderUse, std::allocator<cura::ExtruderUse>>>& self)
{
    return self.vector_.begin();
}
} // namespace n2037

//= cura::LayerVector::iterator_at | cura::LayerVector<cura::Polygon>
namespace n2038
{
using LayerVector = cura::LayerVector<cura::Polygon>;
using const_iterator = cura::LayerVector<cura::Polygon>::const_iterator;
using difference_type = cura::LayerVector<cura::Polygon>::difference_type;
using value_type = cura::LayerVector<cura::Polygon>::value_type;
const_iterator r2038(const cura::LayerVector<cura::Polygon>& self, const LayerIndex& pos)
{
    LayerIndex::value_type index = pos + self.delta_;
    if (index >= 0 && static_cast<size_t>(index) < self.size())
    {
        return std::next(self.begin(), static_cast<difference_type>(index));
    }
    return self.end();
}
} // namespace n2038

//= cura::LayerVector::push_back | cura::LayerVector<cura::Polygon>
namespace n2040
{
using T = cura::Polygon;
using LayerVector = cura::LayerVector<cura::Polygon>;
void r2040(cura::LayerVector<cura::Polygon>& self, T&& item)
{
    self.vector_.push_back(std::move(item));
}
} // namespace n2040
//END
}  // namespace ref
