// What the functions of this unit compute.
#include "Scene.h"
#include <spdlog/spdlog.h>
#include "Application.h"
#include "FffProcessor.h"
#include "communication/Communication.h"
#include "progress/Progress.h"
#include "sliceDataStorage.h"
namespace cura
{
//= cura::Scene::Scene
Scene::Scene(const size_t num_mesh_groups)
    : mesh_groups(num_mesh_groups)
    , current_mesh_group(mesh_groups.begin())
{
    for (MeshGroup& mesh_group : mesh_groups)
    {
        mesh_group.settings.setParent(&settings);
    }
}
//END
}
