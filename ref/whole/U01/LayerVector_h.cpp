// What the functions of this unit compute.
#ifndef UTILS_LAYER_VECTOR_H
#define UTILS_LAYER_VECTOR_H
#include <vector>
#include "raft.h"
#include "settings/types/LayerIndex.h"
namespace cura
{
template<class T>
class LayerVector
{
    using value_type = T;
    using iterator = typename std::vector<value_type>::iterator;
    using const_iterator = typename std::vector<value_type>::const_iterator;
    using reverse_iterator = typename std::vector<value_type>::reverse_iterator;
    using const_reverse_iterator = typename std::vector<value_type>::const_reverse_iterator;
    using reference = value_type&;
    using const_reference = const value_type&;
    using difference_type = typename std::vector<value_type>::difference_type;
public:
    LayerVector() = default;
//= cura::LayerVector::init
    void init(bool contains_raft_layers, size_t print_layers = 0)
    {
        delta_ = contains_raft_layers ? Raft::getTotalExtraLayers() : 0;
        vector_.clear();
        if (print_layers)
        {
            vector_.reserve(print_layers + delta_);
        }
    }
//END
//= cura::LayerVector::begin
    const_iterator begin() const
    {
        return vector_.begin();
    }
//END
//= cura::LayerVector::begin
    iterator begin()
    {
        return vector_.begin();
    }
//END
//= cura::LayerVector::end
    const_iterator end() const
    {
        return vector_.end();
    }
//END
//= cura::LayerVector::end
    iterator end()
    {
        return vector_.end();
    }
//END
//= cura::LayerVector::rbegin
    const_reverse_iterator rbegin() const
    {
        return vector_.rbegin();
    }
//END
//= cura::LayerVector::rbegin
    reverse_iterator rbegin()
    {
        return vector_.rbegin();
    }
//END
//= cura::LayerVector::rend
    const_reverse_iterator rend() const
    {
        return vector_.rend();
    }
//END
//= cura::LayerVector::rend
    reverse_iterator rend()
    {
        return vector_.rend();
    }
//END
//= cura::LayerVector::operator[]
    const_reference operator[](const LayerIndex& pos) const
    {
        return vector_[static_cast<size_t>(pos + delta_)];
    }
//END
//= cura::LayerVector::operator[]
    reference operator[](const LayerIndex& pos)
    {
        return vector_[static_cast<size_t>(pos + delta_)];
    }
//END
//= cura::LayerVector::at
    const_reference at(const LayerIndex& pos) const
    {
        return vector_.at(static_cast<size_t>(pos + delta_));
    }
//END
//= cura::LayerVector::at
    reference at(const LayerIndex& pos)
    {
        return vector_.at(static_cast<size_t>(pos + delta_));
    }
//END
//= cura::LayerVector::front
    const_reference front() const
    {
        return vector_.front();
    }
//END
//= cura::LayerVector::front
    reference front()
    {
        return vector_.front();
    }
//END
//= cura::LayerVector::iterator_at
    [[nodiscard]] const_iterator iterator_at(const LayerIndex& pos) const
    {
        LayerIndex::value_type index = pos + delta_;
        if (index >= 0 && static_cast<size_t>(index) < size())
        {
            return std::next(begin(), static_cast<difference_type>(index));
        }
        return end();
    }
//END
//= cura::LayerVector::iterator_at
    [[nodiscard]] iterator iterator_at(const LayerIndex& pos)
    {
        LayerIndex::value_type index = pos + delta_;
        if (index >= 0 && static_cast<size_t>(index) < size())
        {
            return std::next(begin(), static_cast<difference_type>(index));
        }
        return end();
    }
//END
//= cura::LayerVector::get
    value_type get(const LayerIndex& pos) const noexcept
    {
        LayerIndex::value_type index = pos + delta_;
        if (index >= 0 && static_cast<size_t>(index) < size())
        {
            return vector_[static_cast<size_t>(index)];
        }
        return value_type{};
//END
    }
//= cura::LayerVector::getLayer
    [[nodiscard]] LayerIndex getLayer(const const_iterator& it) const
    {
        return std::distance(begin(), it) - static_cast<difference_type>(delta_);
    }
//END
    [[nodiscard]] LayerIndex getLayer(const iterator& it) const
    {
        return std::distance(begin(), it) - static_cast<difference_type>(delta_);
    }
//= cura::LayerVector::getLayer
    [[nodiscard]] LayerIndex getLayer(const const_reverse_iterator& it) const
    {
        return std::distance(it, rend()) - 1 - static_cast<difference_type>(delta_);
    }
//END
    [[nodiscard]] LayerIndex getLayer(const reverse_iterator& it) const
    {
        return std::distance(it, rend()) - 1 - static_cast<difference_type>(delta_);
    }
//= cura::LayerVector::pop_back
    void pop_back()
    {
        vector_.pop_back();
    }
//END
//= cura::LayerVector::push_back
    void push_back(const_reference item)
    {
        vector_.push_back(item);
    }
//END
//= cura::LayerVector::push_back
    void push_back(T&& item)
    {
        vector_.push_back(std::move(item));
    }
//END
//= cura::LayerVector::size
    [[nodiscard]] size_t size() const
    {
        return vector_.size();
    }
//END
//= cura::LayerVector::empty
    [[nodiscard]] bool empty() const
    {
        return vector_.empty();
    }
//END
//= cura::LayerVector::reserve
    void reserve(size_t size)
    {
        vector_.reserve(size);
    }
//END
//= cura::LayerVector::resize
    void resize(size_t size)
    {
        vector_.resize(size);
    }
//END
//= cura::LayerVector::clear
    void clear()
    {
        vector_.clear();
    }
//END
    void emplace_back(auto&&... args)
    {
        vector_.emplace_back(std::forward<decltype(args)>(args)...);
    }
private:
    std::vector<value_type> vector_;
    size_t delta_{ 0 };
};
} 
#endif
//= instance
template int& cura::LayerVector<int>::operator[](const cura::LayerIndex&);
//END
//= instance
template const int& cura::LayerVector<int>::operator[](const cura::LayerIndex&) const;
//END
//= instance
template int& cura::LayerVector<int>::at(const cura::LayerIndex&);
//END
//= instance
template const int& cura::LayerVector<int>::at(const cura::LayerIndex&) const;
//END
//= instance
template int& cura::LayerVector<int>::front();
//END
//= instance
template std::vector<int>::iterator cura::LayerVector<int>::iterator_at(const cura::LayerIndex&);
//END
//= instance
template std::vector<int>::const_iterator cura::LayerVector<int>::iterator_at(const cura::LayerIndex&) const;
//END
//= instance
template int cura::LayerVector<int>::get(const cura::LayerIndex&) const noexcept;
//END
//= instance
template cura::LayerIndex cura::LayerVector<int>::getLayer(const std::vector<int>::const_iterator&) const;
//END
//= instance
template cura::LayerIndex cura::LayerVector<int>::getLayer(const std::vector<int>::const_reverse_iterator&) const;
//END
//= instance
template void cura::LayerVector<int>::pop_back();
//END
//= instance
template void cura::LayerVector<int>::push_back(const int&);
//END
//= instance
template void cura::LayerVector<int>::reserve(size_t);
//END
//= instance
template void cura::LayerVector<int>::resize(size_t);
//END
//= instance
template void cura::LayerVector<int>::clear();
//END
//= instance
template std::vector<int>::reverse_iterator cura::LayerVector<int>::rbegin();
//END
//= instance
template std::vector<int>::reverse_iterator cura::LayerVector<int>::rend();
//END
//= instance
template void cura::LayerVector<int>::init(bool, size_t);
//END
//= instance
template bool cura::LayerVector<int>::empty() const;
//END
//= instance
template size_t cura::LayerVector<int>::size() const;
//END
//= instance
template const int& cura::LayerVector<int>::front() const;
//END
//= instance
template void cura::LayerVector<int>::push_back(int&&);
//END
//= instance
template std::vector<int>::const_reverse_iterator cura::LayerVector<int>::rbegin() const;
//END
