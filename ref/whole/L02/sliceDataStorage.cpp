// What the functions of this unit compute.
#include "sliceDataStorage.h"
#include <numbers>
#include <spdlog/spdlog.h>
#include "Application.h"
#include "ExtruderTrain.h"
#include "FffProcessor.h"
#include "PrimeTower/PrimeTower.h"
#include "Slice.h"
#include "geometry/OpenPolyline.h"
#include "infill/DensityProvider.h"
#include "infill/LightningGenerator.h"
#include "infill/SierpinskiFillProvider.h"
#include "infill/SubDivCube.h"
#include "raft.h"
#include "utils/ExtrusionLine.h"
#include "utils/math.h"
namespace cura
{
//= cura::SliceMeshStorage::SliceMeshStorage
SliceMeshStorage::SliceMeshStorage(Mesh* mesh, const size_t slice_layer_count)
    : settings(mesh->settings_)
    , mesh_name(mesh->mesh_name_)
    , layer_nr_max_filled_layer(0)
    , bounding_box(mesh->getAABB())
    , base_subdiv_cube(nullptr)
    , cross_fill_provider(nullptr)
    , lightning_generator(nullptr)
    , is_printed_(mesh->isPrinted())
    , is_model_mesh_(mesh->isModelMesh())
{
    layers.resize(slice_layer_count);
}
//END
}
